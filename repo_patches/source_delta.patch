From 775461ee11f41c806d7374c4665fc8a1df222087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 001/137] fix: rounding to 64-bit and unsigned integers must
 not go through int

---
 include/fimex/MathUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..452566c 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -37,7 +37,7 @@ namespace MetNoFimex {
 /**
  * Round a double to integer.
  */
-inline int round(double num)
+inline long round(double num)
 {
     return ::lround(num);
 }
@@ -45,7 +45,7 @@ inline int round(double num)
 /**
  * Round a float to integer.
  */
-inline int round(float num)
+inline long round(float num)
 {
     return ::lroundf(num);
 }
-- 
2.43.0


From 903d9490000bfba67b583568cb962f9f41356bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 002/137] fix: NaN converted to an integer type must become the
 fill value, also when packing is unchanged

---
 src/DataImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..a149939 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -307,7 +307,9 @@ template <typename C>
 DataPtr DataImpl<C>::convertDataType(double oldFill, double oldScale, double oldOffset, UnitsConverter_p unitsConverter, CDMDataType newType,
                                      double newFill, double newScale, double newOffset)
 {
-    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter)
+    // NaN is undefined data, too, and has no integer representation
+    const bool nanToInteger = !std::numeric_limits<C>::is_integer && newType != CDM_FLOAT && newType != CDM_DOUBLE;
+    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter && !nanToInteger)
         return convertValues(*this, newType);
 
     // clang-format off
-- 
2.43.0


From a20b8ad05df5b4e24287f7ec4e8e3a20fd460af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 003/137] fix: a slice request whose start+size wraps around
 must be rejected

---
 src/DataImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index a149939..781c651 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -248,7 +248,7 @@ DataPtr DataImpl<C>::slice(const std::vector<size_t>& orgDimSize, const std::vec
     for (size_t i = 0; i < orgDimSize.size(); ++i) {
         outputSize *= outputDimSize[i];
         orgSize *= orgDimSize[i];
-        if (orgDimSize[i] < (startDims[i] + outputDimSize[i]))
+        if (orgDimSize[i] < outputDimSize[i] || orgDimSize[i] - outputDimSize[i] < startDims[i])
             throw CDMException("dimension-size error, start+size > orgSize: " + type2string(startDims[i] + outputDimSize[i]) + ">" +
                                type2string(orgDimSize[i]));
     }
-- 
2.43.0


From fc14704bc42c573692a1fc06a51f1c61100b2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 004/137] fix: setValues at a position behind the end must be
 rejected, not written out of bounds

---
 src/DataImpl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index 781c651..7eb2e2b 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -199,6 +199,9 @@ void DataImpl<C>::copyData(size_t startPos, const shared_array<C>& otherData, si
     if (otherFirst > otherSize) {
         throw CDMException("data-region-start "+ type2string(otherFirst) + " outside range: "+ type2string(otherSize));
     }
+    if (startPos > size()) {
+        throw CDMException("data-position "+ type2string(startPos) + " outside range: "+ type2string(size()));
+    }
     // fixing max range
     otherLast = std::min(otherLast, otherSize);
     otherLast = std::min(size()-startPos+otherFirst, otherLast);
-- 
2.43.0


From f9622768032d1f4a775f3b4d21a4bdf392709bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:11 +0000
Subject: [PATCH 005/137] fix: NaN and huge grid positions must be outside of
 the grid in nearest/bilinear interpolation

---
 src/interpolation.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..4c1235c 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -248,11 +248,25 @@ static inline double mifi_great_circle_angle(double lat0, double lon0, double la
     return acos(sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0));
 }
 
+/*
+ * index of the grid-point closest to position x on an axis with n points, or -1 if x is
+ * undefined or more than half a grid-distance outside the axis
+ */
+static inline int mifi_nearest_index(double x, int n)
+{
+    if (x > -1 && x < n) { // false for NaN; also avoids overflow in lround
+        int rx = lround(x);
+        if (rx >= 0 && rx < n)
+            return rx;
+    }
+    return -1;
+}
+
 int mifi_get_values_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
-    int rx = lround(x);
-    int ry = lround(y);
-    if (rx >= 0 && rx < ix && ry >= 0 && ry < iy) { // pos in range
+    int rx = mifi_nearest_index(x, ix);
+    int ry = mifi_nearest_index(y, iy);
+    if (rx >= 0 && ry >= 0) { // pos in range
         for (int z = 0; z < iz; ++z) {
             outvalues[z] = infield[mifi_3d_array_pos(rx,ry,z,ix,iy,iz)];
         }
@@ -287,8 +301,8 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 pos += iy*ix;
             }
         } else {
-            y0 = lround(y);
-            if ((0 <= y0) && (y0 < iy)) {
+            y0 = mifi_nearest_index(y, iy);
+            if (0 <= y0) {
                 // linear interpolation in x, nearest-neighbor in y
                 size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                 for (int z = 0; z < iz; ++z) {
@@ -305,8 +319,8 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
             }
         }
     } else {
-        x0 = lround(x);
-        if ((0 <= x0) && (x0 < ix)) {
+        x0 = mifi_nearest_index(x, ix);
+        if (0 <= x0) {
             // nearest neighbor in x
             if ((0 <= y0) && (y1 < iy)) {
                 // linear in y
-- 
2.43.0


From ef398cbeab81d67d2f3b2679bc137cad0cfbec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:11 +0000
Subject: [PATCH 006/137] fix: bilinear interpolation read behind the last row
 near a corner

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 4c1235c..cdf8737 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -332,8 +332,8 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                     pos += iy*ix;
                 }
             } else {
-                y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                y0 = mifi_nearest_index(y, iy);
+                if (0 <= y0) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From 16d1b7fd348d8a4747d35b241c1864b66910eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:11 +0000
Subject: [PATCH 007/137] fix: forward_undef_min selected forward_min

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index cdf8737..1b31cb9 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From e87c709d286c5ec60630d59f5e0e59f5b0a5c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 008/137] fix: filling of a field with a single row accessed
 rows outside of the field

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 1b31cb9..9dc6dc9 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -675,7 +675,7 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
@@ -783,7 +783,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From fb60b49ef2705cd6bd10994b0e12a4dfeb38d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 009/137] fix: grid distance of the last row must be taken from
 the row before

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 9dc6dc9..4b463d3 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -890,8 +890,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
         // last row, overwriting corner
         for (size_t i = 0; i < nx; i++) {
             size_t p = (ny-1)*nx + i;
-            gridDistX[p] = gridDistX[p-ny];
-            gridDistY[p] = gridDistY[p-ny];
+            gridDistX[p] = gridDistX[p-nx];
+            gridDistY[p] = gridDistY[p-nx];
         }
     }
     return MIFI_OK;
-- 
2.43.0


From 37e19441f753ee50ae584504d2652d440ece9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:15 +0000
Subject: [PATCH 010/137] fix: SliceBuilder accepted a start and size whose sum
 wraps around

---
 src/SliceBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..8e6b847 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,7 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    if ((!unlimited_.at(pos)) && (maxSize_.at(pos) < size || maxSize_.at(pos) - size < start)) {
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 836d74203ec64d027e6b3e126af0daa9f3987bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:15 +0000
Subject: [PATCH 011/137] fix: undefined slices were left uninitialised when
 joining all data of a variable

---
 src/CDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..f22c692 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -155,7 +155,7 @@ DataPtr CDMReader::getData(const std::string& varName)
             const CDMDimension* udim = cdm_->getUnlimitedDim();
             size_t uDimSize = udim->getLength();
             const auto sliceSize = product(getDimsSlice(varName));
-            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize);
+            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize, cdm_->getFillValue(varName));
             for (size_t i = 0; i < uDimSize; i++) {
                 DataPtr slice = getDataSlice(varName, i);
                 data->setValues(i*sliceSize, *slice, 0, sliceSize);
-- 
2.43.0


From afd5fa8c67d792371c64b2260bd9a38c2e3afc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:15 +0000
Subject: [PATCH 012/137] fix: a data slice reaching behind the end of the data
 contained uninitialised values

---
 src/Data.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Data.cc b/src/Data.cc
index 390a308..2e416f9 100644
--- a/src/Data.cc
+++ b/src/Data.cc
@@ -122,6 +122,8 @@ DataPtr createData(const std::string& value)
 
 DataPtr createDataSlice(CDMDataType datatype, const Data& data, size_t dataStartPos, size_t length)
 {
+    if (data.size() < length || data.size() - length < dataStartPos)
+        throw CDMException("dataslice from " + type2string(dataStartPos) + " of length " + type2string(length) + " outside range: " + type2string(data.size()));
     DataPtr d;
     // clang-format off
     switch (datatype) {
-- 
2.43.0


From 7a077fbd6f15950970485c8f1124a6f3def67ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 013/137] fix: extracting scattered positions of a fast
 dimension delivered data in wrong order

---
 src/CDMExtractor.cc | 70 ++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..fa974bb 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -113,57 +113,29 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         DimSlicesMap::iterator foundDim = dimSlices_.find(dim.getName());
         size_t sbStart, sbSize;
         sb.getStartAndSize(dimName, sbStart, sbSize);
-        if (foundDim == dimSlices_.end()) {
-            // handle pure sb changes
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
-        } else if (foundDim->second.empty()) {
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, 0);
-        } else {
-            // handle slices in chunks
-            const std::vector<std::size_t>& positions = foundDim->second;
-            assert(positions.size() > sbStart);
-            assert(positions.size() - sbStart >= sbSize);
-            if (slices.size() <= 1) {
-                // make chunks as large as possible for efficiency
-                std::vector < std::pair<size_t, size_t> > chunks; // start,size
-                size_t start = positions.at(sbStart), last = start;
-                for (size_t i = sbStart + 1; i < sbStart + sbSize; ++i) {
-                    const size_t positions_i = positions.at(i);
-                    if (positions_i == last + 1) {
-                        // make a larger continuous chunk
-                        last = positions_i;
-                    } else {
-                        chunks.push_back(std::make_pair(start, last - start + 1));
-                        start = last = positions_i;
-                    }
-                }
-                chunks.push_back(std::make_pair(start, last - start + 1)); // chunks with start and size
-                // create one slice for each chunk
-                std::vector<SliceBuilder> newSlices;
-                for (std::vector<std::pair<size_t, size_t> >::iterator chunksIt =
-                        chunks.begin(); chunksIt != chunks.end(); ++chunksIt) {
-                    for (SliceBuilder& sliceb : slices) {
-                        SliceBuilder lsb = sliceb; // make a copy
-                        lsb.setStartAndSize(dim.getName(), chunksIt->first, chunksIt->second);
-                        newSlices.push_back(lsb);
-                    }
-                }
-                slices = std::move(newSlices);
-            } else {
-                // chunks already splitted up, just add the relevant slices one by one
-                std::vector<SliceBuilder> newSlices;
-                for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
-                    for (SliceBuilder& sliceb : slices) {
-                        SliceBuilder lsb = sliceb; // make a copy
-                        lsb.setStartAndSize(dim.getName(), positions.at(i), 1);
-                        newSlices.push_back(lsb);
-                    }
-                }
-                slices = std::move(newSlices);
+        // make chunks as large as possible for efficiency, but if a faster dimension
+        // is split up already, the positions need to be added one by one
+        const bool split = slices.size() > 1;
+        std::vector<std::pair<size_t, size_t>> chunks; // start,size
+        for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+            const size_t pos = (foundDim == dimSlices_.end()) ? i : foundDim->second.at(i);
+            if (!split && !chunks.empty() && pos == chunks.back().first + chunks.back().second)
+                chunks.back().second += 1; // make a larger continuous chunk
+            else
+                chunks.push_back(std::make_pair(pos, 1));
+        }
+        if (chunks.empty())
+            chunks.push_back(std::make_pair(0, 0));
+        // create one slice for each chunk
+        std::vector<SliceBuilder> newSlices;
+        for (const auto& chunk : chunks) {
+            for (const SliceBuilder& sliceb : slices) {
+                SliceBuilder lsb = sliceb; // make a copy
+                lsb.setStartAndSize(dim.getName(), chunk.first, chunk.second);
+                newSlices.push_back(lsb);
             }
         }
+        slices = std::move(newSlices);
     }
     // read
     DataPtr data = joinSlices(dataReader_, varName, slices);
-- 
2.43.0


From dab844376ad1c12baddc999c10879fa64d566948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 014/137] fix: dimension reductions outside of the original
 dimension must be rejected

---
 src/CDMExtractor.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index fa974bb..beb416d 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -231,9 +231,10 @@ void CDMExtractor::selectVariables(std::set<std::string> variables, bool addAuxi
 void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<std::size_t>& slices)
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
-            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
+        if (sz >= orgLength)
+            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(orgLength));
     }
 
     // keep track of changes
@@ -251,6 +252,10 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (orgLength < length || orgLength - length < start)
+        throw CDMException("can't reduce dimension '" + dimName + "' to start: " + type2string(start) + " size: " + type2string(length) +
+                           " out of bounds: " + type2string(orgLength));
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
@@ -260,15 +265,18 @@ void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, siz
 
 void CDMExtractor::reduceDimensionStartEnd(const std::string& dimName, size_t start, long long end)
 {
-    size_t length = 0;
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (start > orgLength || end > (long long)orgLength || end < -(long long)orgLength)
+        throw CDMException("can't reduce dimension '" + dimName + "' to start: " + type2string(start) + " end: " + type2string(end) +
+                           " out of bounds: " + type2string(orgLength));
+    long long length = -(long long)start;
     if (end > 0) {
-        length = end - start + 1;
+        length += end + 1;
     } else {
-        CDMDimension& dim = cdm_->getDimension(dimName);
-        length = dim.getLength();
-        length -= start;
-        length += end;
+        length += orgLength + end;
     }
+    if (length < 0)
+        throw CDMException("can't reduce dimension '" + dimName + "' to start: " + type2string(start) + " end: " + type2string(end));
     reduceDimension(dimName, start, length);
 }
 
-- 
2.43.0


From 5af1b1c86db56ea1088d4ed71d1cf0abb984317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 015/137] fix: decoded times must be rounded to milliseconds,
 not give second 60 or lose a millisecond

---
 src/TimeUnit.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..d9c2f18 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -89,24 +89,24 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
     handleUdUnitError(ut_get_status(), "parsing unit seconds");
     std::shared_ptr<cv_converter> conv(ut_get_converter(reinterpret_cast<ut_unit*>(pUnit.get()), baseTime.get()), cv_free);
     handleUdUnitError(ut_get_status(), "converting double to calendar");
-    double encodedTime = cv_convert_double(conv.get(), unitTime);
+    // round to milliseconds, the resolution of FimexTime
+    const double encodedTime = std::round(cv_convert_double(conv.get(), unitTime) * 1000) / 1000;
     double res, sec;
     ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    const long milliSecs = std::lround(sec * 1000);
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
     fiTime.setHour(static_cast<char>(hour));
     fiTime.setMinute(static_cast<char>(minute));
-    fiTime.setSecond(static_cast<char>(second));
-    fiTime.setMSecond(static_cast<unsigned int>((second - fiTime.getSecond())*1000));
+    fiTime.setSecond(static_cast<char>(milliSecs / 1000));
+    fiTime.setMSecond(static_cast<unsigned int>(milliSecs % 1000));
 
     return fiTime;
 }
@@ -122,7 +122,7 @@ double TimeUnit::fimexTime2unitTime(const FimexTime& fiTime, double invalidValue
     }
 
     Units units; // unit initialization
-    float second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
+    const double second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
     double unitTime;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
-- 
2.43.0


From 0b490a83cfe422fea0454001e2cc6b0182e06392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 016/137] fix: relative times before the end (x-N) were
 evaluated as 0

---
 src/TimeSpec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..042f1db 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -68,7 +68,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
         } else {
             if (what[1] == '+') {
                 retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
+            } else if (what[1] == '-') {
                 retVal = finalValue - string2type<double>(what[2]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN,
-- 
2.43.0


From 47474346e076e8c979374721a9307b3440970fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 017/137] fix: relative time 0 must not be before the start of
 the original time-axis

---
 src/TimeSpec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index 042f1db..59b2bb6 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <regex>
@@ -150,7 +151,7 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         // find the position 0 in the relative times
         double startTimeU = tu.fimexTime2unitTime(startTime);
         double startOffset = static_cast<int>(startTimeU / delta) * delta;
-        if (startTimeU < startOffset) {
+        if (startTimeU - startOffset > 1e-5 * std::abs(delta)) {
             // cast to largest value below startTimeU
             // but I want smallest value above startTimeU
             startOffset += delta;
-- 
2.43.0


From 66986cdefeff6d212f5df4efc9290c673693d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 018/137] fix: expansion of a list ending with dots, or of
 equal values, must terminate

---
 include/fimex/TokenizeDotted.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..6f1a8f1 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -56,11 +56,12 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             T curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
-            if (++tok != tokens.end()) {
+            if (tok + 1 != tokens.end()) {
+                ++tok;
                 T afterDotVal = string2type<T>(*tok);
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
-                while ((curVal - afterDotVal) * direction < roundError) {
+                while (dist != T(0) && (curVal - afterDotVal) * direction < roundError) {
                     vals.push_back(curVal);
                     curVal += dist;
                 }
-- 
2.43.0


From dfc700f6afb94599c7a31dc915b09dec2dffcd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:09 +0000
Subject: [PATCH 019/137] fix: reading from a CDMTimeInterpolator with
 unchanged time-axis dereferenced the end of a map

---
 src/CDMTimeInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..e304e0c 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,8 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    const auto orgTimesIt = dataReaderTimesInNewUnits_.find(timeAxis);
+    if (timeAxis.empty() || orgTimesIt == dataReaderTimesInNewUnits_.end() || orgTimesIt->second.empty()) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From 5da484c52c6f98da772bb4605f8278095daea059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:09 +0000
Subject: [PATCH 020/137] fix: time-interpolation must not use fill values as
 numbers

---
 src/CDMTimeInterpolator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index e304e0c..8680274 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -125,7 +125,11 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
             data = d1;
         } else if (d1->size() == d2->size()) {
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            const double fill = cdm_->getFillValue(varName);
+            auto f1 = d1->convertDataType(fill, 1, 0, CDM_FLOAT, MIFI_UNDEFINED_F, 1, 0)->asFloat();
+            auto f2 = d2->convertDataType(fill, 1, 0, CDM_FLOAT, MIFI_UNDEFINED_F, 1, 0)->asFloat();
+            mifi_get_values_linear_weak_extrapol_f(f1.get(), f2.get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            mifi_nanf2bad(out.get(), out.get() + d1->size(), static_cast<float>(fill));
             data = createData(d1->size(), out);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
-- 
2.43.0


From d96a616558c5f9ee17f6a86a4708fcf97ac240a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:46 +0000
Subject: [PATCH 021/137] fix: time-interpolation to times in non-ascending
 order used the wrong original times

---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 8680274..d19c357 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -167,10 +167,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -188,7 +187,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From 686bfeddc5dd6f981a55668ba22d4429d2dd4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:09 +0000
Subject: [PATCH 022/137] fix: forward interpolation of several layers used the
 first layer for all

---
 src/CachedForwardInterpolation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..6c0e403 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -210,10 +210,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
     for (size_t z = 0; z < inZ; ++z) {
+        const float* inDataZ = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inDataZ[ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From ac02370c32dbc377708b322c9b922530066f6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:17 +0000
Subject: [PATCH 023/137] fix: forward_undef_min/max/median did not propagate
 undefined values

---
 src/CachedForwardInterpolation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 6c0e403..04eab0f 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -213,12 +213,16 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
         const float* inDataZ = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
+            bool undef = false;
             for (size_t ii : pointsInIn[i]) {
                 const float val = inDataZ[ii];
-                if (undefAggr || !mifi_isnan(val))
+                if (!mifi_isnan(val))
                     agg->push(val);
+                else if (undefAggr)
+                    undef = true;
             }
-            *outDataIt++ = agg->get_and_reset();
+            const float aggregated = agg->get_and_reset();
+            *outDataIt++ = undef ? MIFI_UNDEFINED_F : aggregated;
         }
     }
     return outData;
-- 
2.43.0


From ac01fc71d39cd6bbadb8a82bf1b0d9c3228dc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 024/137] fix: parts of data interpolated to axes with other
 names were taken from the wrong position

---
 include/fimex/CachedInterpolation.h | 8 +++++++-
 src/CDMInterpolator.cc              | 3 ++-
 src/CachedInterpolation.cc          | 5 ++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/fimex/CachedInterpolation.h b/include/fimex/CachedInterpolation.h
index 471c889..e2b0d59 100644
--- a/include/fimex/CachedInterpolation.h
+++ b/include/fimex/CachedInterpolation.h
@@ -92,7 +92,13 @@ public:
      */
     virtual DataPtr getInputDataSlice(CDMReader_p reader, const std::string& varName, const SliceBuilder& sb) const;
 
-    virtual DataPtr getOutputDataSlice(DataPtr data, const SliceBuilder& sb) const;
+    /**
+     * Slice the horizontal dimensions of the interpolated data.
+     * @param data interpolated data, already sliced in other than the horizontal dimensions
+     * @param inputDimNames the names of the dimensions of the variable in the input, in the same order as in sb
+     * @param sb a slicebuilder for the output
+     */
+    virtual DataPtr getOutputDataSlice(DataPtr data, const std::vector<std::string>& inputDimNames, const SliceBuilder& sb) const;
 
     /**
      * allow fetching of a reduced interpolation domain, i.e. to work with a much smaller amount of input data
diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..5d2c989 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -260,7 +260,8 @@ DataPtr CDMInterpolator::getDataSlice(const std::string& varName, const SliceBui
 
     processArray_(p_->postprocesses, iArray.get(), newSize, ci->getOutX(), ci->getOutY());
 
-    return ci->getOutputDataSlice(interpolationArray2Data(variable.getDataType(), iArray, newSize, badValue), sb);
+    return ci->getOutputDataSlice(interpolationArray2Data(variable.getDataType(), iArray, newSize, badValue),
+                                  p_->dataReader->getCDM().getVariable(varName).getShape(), sb);
 }
 
 DataPtr CDMInterpolator::getDataSlice(const std::string& varName, size_t unLimDimPos)
diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..ea7d9f9 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -110,15 +110,14 @@ DataPtr CachedInterpolationInterface::getInputDataSlice(CDMReader_p reader, cons
     return reader->getDataSlice(varName, rsb);
 }
 
-DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const SliceBuilder& sb) const
+DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const std::vector<std::string>& inputDimNames, const SliceBuilder& sb) const
 {
     // slice the x and y direction of the data
     std::vector<size_t> startPos = sb.getDimensionStartPositions();
     std::vector<size_t> maxDims = sb.getMaxDimensionSizes();
     const std::vector<size_t>& dimSizes = sb.getDimensionSizes();
-    const std::vector<std::string> dimNames = sb.getDimensionNames();
     for (size_t i = 0; i < dimSizes.size(); i++) {
-        const std::string& dn = dimNames[i];
+        const std::string& dn = inputDimNames.at(i); // dimensions might have another name in the output
         const bool is_xy = (reducedDomain() ? (dn == reducedDomain()->xDim || dn == reducedDomain()->yDim) : (dn == _xDimName || dn == _yDimName));
         if (!is_xy) {
             // already sliced in getInputDataSlice
-- 
2.43.0


From 25c899b551abb42a19055cf454a5a385d9bd2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 025/137] fix: interpolated variables with data in memory were
 delivered without interpolation

---
 src/CDMInterpolator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 5d2c989..81ab252 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -724,6 +724,17 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
 }
 
 namespace {
+/**
+ * remove in-memory data of variables to be interpolated, so that it is read from the original reader and interpolated
+ */
+void removeDataOfProjectionVariables(CDM& cdm, const map<string, string>& projectionVariables)
+{
+    for (const auto& pv : projectionVariables) {
+        if (cdm.hasVariable(pv.first))
+            cdm.getVariable(pv.first).setData(DataPtr());
+    }
+}
+
 /**
  * make changes in the CDM structure to reflect the new projection (attributes, coordinates, projection-variable, dimensions)
  *
@@ -740,6 +751,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
     string newProj = getProjectionName(proj_input);
     string newXAxis;
     string newYAxis;
+    removeDataOfProjectionVariables(cdm, projectionVariables);
     for (map<string, CoordinateSystem_cp>::const_iterator csi = csMap.begin(); csi != csMap.end(); ++csi) {
         CoordinateSystem_cp cs = csi->second;
         if (cs->hasProjection()) {
@@ -1449,6 +1461,7 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
 
     const string newXAxis("x");
     const string newYAxis("y");
+    removeDataOfProjectionVariables(cdm, projectionVariables);
 
     for (const auto& csi : csMap) {
         CoordinateSystem_cp cs = csi.second;
-- 
2.43.0


From bdf1facee83417750777203e923bf3ea65d6d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 026/137] fix: vector-reprojection to two rows or columns read
 outside of the field

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..9d89e65 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = std::min(ox / 2, ox - 2);
+                size_t oy_2 = std::min(oy / 2, oy - 2);
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From a21db91ae68ae4ced374ea345f7a3dd80c7f40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:40 +0000
Subject: [PATCH 027/137] fix: closest neighbor elements were not distinct at
 or before the first element

---
 include/fimex/FindNeighborElements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..a104fab 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -55,7 +55,7 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
+        v2Diff = numeric_limits<value_t>::max(); // no second element yet
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
@@ -104,7 +104,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff < 0)
+    if (highDiff <= 0)
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From d9691f351bff1c7d2d6a44a58598dda6cd327687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:11 +0000
Subject: [PATCH 028/137] fix: vertical nearestneighbor used the level below,
 not the nearest level

---
 src/interpolation.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 4b463d3..5be2c2d 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -429,12 +429,7 @@ int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const doub
 
 int mifi_get_values_nearest_f(const float* infieldA, const float* infieldB, float* outfield, const size_t n, const double a, const double b, const double x)
 {
-    (void)infieldB;
-    (void)a;
-    (void)b;
-    (void)x;
-
-    memcpy(outfield, infieldA, n * sizeof(float));
+    memcpy(outfield, (fabs(x - b) < fabs(x - a)) ? infieldB : infieldA, n * sizeof(float));
     return MIFI_OK;
 }
 
-- 
2.43.0


From 56aa6feff915181fd23e17cab6dc5c826cd75349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:19 +0000
Subject: [PATCH 029/137] fix: depth of the sea surface in ocean s-coordinates
 had the wrong sign

---
 .../OceanSCoordinateGToDepthConverter.cc               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index 7d8f4d8..8aa7ef0 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -125,8 +125,14 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMin(const SliceBuilder& sb) const
 {
-    if (!vars_.eta.empty())
-        return getSliceData(reader_, sb, vars_.eta, "m");
+    if (!vars_.eta.empty()) {
+        // eta is positive up, but we want positive down
+        DataPtr eta = getSliceData(reader_, sb, vars_.eta, "m");
+        auto min_values = make_shared_array<double>(eta->size());
+        auto eta_values = eta->asDouble();
+        std::transform(eta_values.get(), eta_values.get() + eta->size(), min_values.get(), std::negate<double>());
+        return createData(eta->size(), min_values);
+    }
     return BasicVerticalConverter::getValidityMin(sb);
 }
 
-- 
2.43.0


From 0389077d7b8b220c0045576a3084c779a598c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:36 +0000
Subject: [PATCH 030/137] fix: valid levels in vertical interpolation were
 those of the first time for all times

---
 src/CDMVerticalInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..b627944 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -415,7 +415,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> oValidMaxShape = oConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid max shape: " << join(oValidMaxShape.begin(), oValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr oValuesMax = oConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), oValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -427,7 +428,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> oValidMinShape = oConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid min shape: " << join(oValidMinShape.begin(), oValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr oValuesMin = oConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), oValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
@@ -441,7 +443,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> iValidMaxShape = iConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid max shape: " << join(iValidMaxShape.begin(), iValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr iValuesMax = iConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), iValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -454,7 +457,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> iValidMinShape = iConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid min shape: " << join(iValidMinShape.begin(), iValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr iValuesMin = iConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), iValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
-- 
2.43.0


From 47b8107091cb3822a42990895cd2c6bdc45898c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:39 +0000
Subject: [PATCH 031/137] fix: surface pressure and reference pressure were
 exchanged in the hybrid sigma pressure coordinate

---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 109ac179f04ba8860e9fdfd872b1f7326decf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:33 +0000
Subject: [PATCH 032/137] fix: joinNew delivered only the first time of
 variables that are not joined

---
 src/AggregationReader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..1a81b33 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -459,6 +459,11 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        const CDM& rCdm = rd->getCDM();
+        if (!cdm_->hasUnlimitedDim(aVar) && rCdm.hasUnlimitedDim(rCdm.getVariable(varName))) {
+            // dimension is no longer unlimited, read everything
+            return rd->getDataSlice(varName, SliceBuilder(rCdm, varName));
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From d164c7d4c77d194a9df0e9597818d93455dd6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 033/137] fix: joinNew delivered data in memory of one reader
 for all readers

---
 src/AggregationReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 1a81b33..d1b1ecc 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -142,6 +142,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // data in memory are those of one reader only
             }
         }
 
@@ -263,6 +264,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr);
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
-- 
2.43.0


From 6381f746f31fc05921713e11d41e58af2b1d8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 034/137] fix: size of slices missing in one of the joinNew
 readers

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index d1b1ecc..e60cd0b 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -449,7 +449,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From f5676d477482478a20ac46a1accdb1789c10bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:13 +0000
Subject: [PATCH 035/137] fix: accumulating or deaccumulating modified data
 delivered earlier

---
 src/CDMProcessor.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..3c85d65 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -532,9 +532,12 @@ struct UnScaleOffset
     }
 };
 
-static void replaceNanWith0(shared_array<double> dp, size_t n)
+static void replaceNanWith0(shared_array<double>& dp, size_t n)
 {
-    mifi_nand2bad(&dp[0], &dp[0]+n, 0);
+    auto d0 = make_shared_array<double>(n);
+    std::copy(&dp[0], &dp[0] + n, &d0[0]);
+    mifi_nand2bad(&d0[0], &d0[0] + n, 0);
+    dp = d0;
 }
 
 // add d2 to d1 and return d1
@@ -547,11 +550,12 @@ static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeSte
             // in step 0, replace undef with 0
             replaceNanWith0(dp, dataP->size());
         }
-        // this might modify the original data in the reader
-        std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
-        data = createData(data->size(), d);
+        // do not modify the data in the reader or in the cache
+        auto sum = make_shared_array<double>(data->size());
+        std::transform(&d[0], &d[0] + data->size(), &dp[0], &sum[0], std::plus<double>());
+        data = createData(data->size(), sum);
     } else if (dataP->size() != 0) {
-        data = dataP; // data->size was 0
+        data = dataP->clone(); // data->size was 0
     }
 }
 
@@ -612,7 +616,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
                 if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+                    data = p_->sliceCache.data->clone();
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
                     addDataP2Data(data, dataP, false);
@@ -626,7 +630,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             // fill the cache
             p_->sliceCache.varName = varName;
             p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data;
+            p_->sliceCache.data = data->clone();
         }
     }
 
@@ -643,9 +647,10 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                     // in step 0, replace undef with 0
                     replaceNanWith0(dp, dataP->size());
                 }
-                // this might modify the original data in the reader
-                std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
-                data = createData(data->size(), d);
+                // do not modify the data in the reader or in the cache
+                auto diff = make_shared_array<double>(data->size());
+                std::transform(&d[0], &d[0] + data->size(), &dp[0], &diff[0], std::minus<double>());
+                data = createData(data->size(), diff);
             }
         }
     }
-- 
2.43.0


From e0551c96bf73506da3b97d98a87da88928f28fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 036/137] fix: accumulating or deaccumulating used fill values
 and packing offsets as numbers

---
 src/CDMProcessor.cc | 81 +++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 3c85d65..e9dccd7 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -532,28 +532,47 @@ struct UnScaleOffset
     }
 };
 
-static void replaceNanWith0(shared_array<double>& dp, size_t n)
+// packed values which need to be considered when calculating with packed data
+struct Packing
 {
-    auto d0 = make_shared_array<double>(n);
-    std::copy(&dp[0], &dp[0] + n, &d0[0]);
-    mifi_nand2bad(&d0[0], &d0[0] + n, 0);
-    dp = d0;
+    double fill; // packed undefined value
+    double zero; // packed value of 0
+};
+
+// copy of the values, with fill-values as nan
+static shared_array<double> undefinedAsNan(DataPtr data, const Packing& packing)
+{
+    const size_t n = data->size();
+    auto d = data->asDouble();
+    auto copy = make_shared_array<double>(n);
+    std::copy(&d[0], &d[0] + n, &copy[0]);
+    std::replace(&copy[0], &copy[0] + n, packing.fill, double(MIFI_UNDEFINED_D));
+    return copy;
+}
+
+// add factor * dataP (unpacked) to data
+static void addDataP2Data(DataPtr& data, DataPtr dataP, double factor, bool addingFirstTimeStep, const Packing& packing)
+{
+    const size_t n = data->size();
+    assert(n == dataP->size());
+    // these are copies, do not modify the data in the reader or in the cache
+    auto d = undefinedAsNan(data, packing);
+    auto dp = undefinedAsNan(dataP, packing);
+    if (addingFirstTimeStep) {
+        // in step 0, replace undef with 0
+        mifi_nand2bad(&dp[0], &dp[0] + n, packing.zero);
+    }
+    for (size_t i = 0; i < n; ++i)
+        d[i] += factor * (dp[i] - packing.zero);
+    mifi_nand2bad(&d[0], &d[0] + n, packing.fill);
+    data = createData(n, d);
 }
 
-// add d2 to d1 and return d1
-static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
+// add dataP to data, where either may be missing
+static void accumulateDataP2Data(DataPtr& data, DataPtr dataP, bool addingFirstTimeStep, const Packing& packing)
+{
     if ((data->size() != 0) && (dataP->size() != 0)) {
-        assert(data->size() == dataP->size());
-        auto d = data->asDouble();
-        auto dp = dataP->asDouble();
-        if (addingFirstTimeStep) {
-            // in step 0, replace undef with 0
-            replaceNanWith0(dp, dataP->size());
-        }
-        // do not modify the data in the reader or in the cache
-        auto sum = make_shared_array<double>(data->size());
-        std::transform(&d[0], &d[0] + data->size(), &dp[0], &sum[0], std::plus<double>());
-        data = createData(data->size(), sum);
+        addDataP2Data(data, dataP, 1, addingFirstTimeStep, packing);
     } else if (dataP->size() != 0) {
         data = dataP->clone(); // data->size was 0
     }
@@ -608,6 +627,14 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         data = p_->dataReader->getDataSlice(varName, unLimDimPos);
     }
 
+    Packing packing = {MIFI_UNDEFINED_D, 0};
+    if (p_->accumulateVars.count(varName) || p_->deaccumulateVars.count(varName)) {
+        double scale = 1, offset = 0;
+        getScaleAndOffsetOf(varName, scale, offset);
+        packing.fill = cdm_->getFillValue(varName);
+        packing.zero = -offset / scale;
+    }
+
     // accumulation
     if (p_->accumulateVars.find(varName) != p_->accumulateVars.end()) {
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
@@ -618,14 +645,13 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 if (p_->sliceCache.ulimDimPos == unLimDimPos) {
                     data = p_->sliceCache.data->clone();
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false);
+                    accumulateDataP2Data(data, p_->sliceCache.data, false, packing);
                 }
             }
             // data contains last slice + eventually cache
             for (size_t i = start; i <= unLimDimPos-1; ++i) {
                 DataPtr dataP = p_->dataReader->getDataSlice(varName, i);
-                addDataP2Data(data, dataP, i == 0);
+                accumulateDataP2Data(data, dataP, i == 0, packing);
             }
             // fill the cache
             p_->sliceCache.varName = varName;
@@ -640,17 +666,8 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         if (unLimDimPos != 0) { // cannot deaccumulate first
             DataPtr dataP = p_->dataReader->getDataSlice(varName, unLimDimPos-1);
             if ((data->size() != 0) && (dataP->size() != 0)) {
-                assert(data->size() == dataP->size());
-                auto d = data->asDouble();
-                auto dp = dataP->asDouble();
-                if (unLimDimPos == 1) {
-                    // in step 0, replace undef with 0
-                    replaceNanWith0(dp, dataP->size());
-                }
-                // do not modify the data in the reader or in the cache
-                auto diff = make_shared_array<double>(data->size());
-                std::transform(&d[0], &d[0] + data->size(), &dp[0], &diff[0], std::minus<double>());
-                data = createData(data->size(), diff);
+                // in step 0, replace undef with 0
+                addDataP2Data(data, dataP, -1, unLimDimPos == 1, packing);
             }
         }
     }
-- 
2.43.0


From d4093e8db76ffbcf7ca2712034a93d04c24bf0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 037/137] fix: data in memory were delivered without processing

---
 src/CDMProcessor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index e9dccd7..4ca4eb4 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -386,6 +386,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(nullptr); // data in memory are not processed
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -396,6 +397,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(nullptr); // data in memory are not processed
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
@@ -477,6 +479,9 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
             assert(itCS != coordSysMap.end());
             p_->cachedVectorReprojection[csXId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
+        // data in memory are not processed
+        cdm_->getVariable(varNameX[i]).setData(nullptr);
+        cdm_->getVariable(varNameY[i]).setData(nullptr);
         p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
         p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
     }
@@ -501,6 +506,7 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
 
         const string& csId = projectionVariables[varNames[i]];
         p_->rotateLatLonDirection[varNames[i]] = csId;
+        cdm_->getVariable(varNames[i]).setData(nullptr); // data in memory are not processed
 
         if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
-- 
2.43.0


From f71e24730974d8d228fb95acb03570d994d69b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 038/137] fix: quality extraction never found the variables of
 a status variable

---
 src/CDMQualityExtractor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..0fe8910 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
-- 
2.43.0


From 5d989f912f11240ede8b94965376e8ee259f727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 039/137] fix: quality extraction refused the documented
 auto-configuration values=...

---
 src/CDMQualityExtractor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 0fe8910..1621691 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -112,7 +112,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && autoConfString.compare(0, 7, "values=") != 0) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
-- 
2.43.0


From ef57dc4ebd12c93c4b317ac529c95367c557e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 040/137] fix: quality configuration did not replace the
 automatic one

---
 src/CDMQualityExtractor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 1621691..646b244 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -203,6 +203,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             if (!statusVarVals.empty()) {
                 variableValues[varName] = statusVarVals;
             } else if (!statusVarUse.empty()) {
+                variableValues.erase(varName); // from auto-configuration
                 variableFlags[varName] = statusVarUse;
             } else {
                 throw CDMException("unable to quality-assure variable " + varName + ": no use or values given");
-- 
2.43.0


From 58686f828fff501087287e5bd77b7fc757fcbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 041/137] fix: quality extraction with use=highest or lowest
 did not extract or did not end

---
 src/CDMQualityExtractor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 646b244..5bcc021 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -217,7 +217,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
@@ -228,6 +228,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
+            ++pos;
         }
     }
     return extreme;
-- 
2.43.0


From d1d51147bf3451b304bb98a6a9ba290167c734fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 042/137] fix: quality extraction modified the data of its
 source

---
 src/CDMQualityExtractor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 5bcc021..b2b5fc9 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -278,7 +278,8 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
         }
         const double sizeRatio = double(sizeD)/sizeS;
         if (sizeRatio == int(sizeRatio) && sizeRatio >= 1) {
-            auto sd = statusData->asDouble();
+            data = data->clone();
+            auto sd = statusData->clone()->asDouble();
             vector<double> useVals;
             if (variableValues.find(varName) != variableValues.end()) {
                 useVals = variableValues[varName];
-- 
2.43.0


From d540b54bd37afa15046f9abfe9a1f2d620cbf7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 043/137] fix: data in memory were delivered without quality
 extraction

---
 src/CDMQualityExtractor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index b2b5fc9..356e6a1 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -210,6 +210,11 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+    // data in memory are not quality-extracted
+    for (const auto& vs : statusVariable) {
+        if (cdm_->hasVariable(vs.first))
+            cdm_->getVariable(vs.first).setData(nullptr);
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
-- 
2.43.0


From 42e733e526c3625ac51702b2bb15677645e08930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 044/137] fix: border smoothing read outside of the dimensions
 of variables without horizontal axes

---
 src/CDMBorderSmoothing.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..2b9785d 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -104,6 +104,23 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string> &shape = cdm_->getVariable(varName).getShape();
+    vector<size_t> dimSizes;
+    int shapeIdxX = -1, shapeIdxY = -1;
+    for(size_t i=0; i<shape.size(); ++i) {
+        if (p->nameX == shape[i])
+            shapeIdxX = i;
+        else if (p->nameY == shape[i])
+            shapeIdxY = i;
+
+        const CDMDimension& dim = cdm_->getDimension(shape[i]);
+        if (not dim.isUnlimited())
+            dimSizes.push_back(dim.getLength());
+    }
+
+    if (shapeIdxX < 0 or shapeIdxY < 0)
+        return p->readerI->getDataSlice(varName, unLimDimPos); // no horizontal axes, no smoothing
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,23 +138,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
-    vector<size_t> dimSizes;
-    int shapeIdxX = -1, shapeIdxY = -1;
-    for(size_t i=0; i<shape.size(); ++i) {
-        if (p->nameX == shape[i])
-            shapeIdxX = i;
-        else if (p->nameY == shape[i])
-            shapeIdxY = i;
-
-        const CDMDimension& dim = cdm_->getDimension(shape[i]);
-        if (not dim.isUnlimited())
-            dimSizes.push_back(dim.getLength());
-    }
-    
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From a70958151d4c51de76d8be7ba431241fef9eaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 045/137] fix: data in memory were delivered without merging

---
 src/CDMMergeUtils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..6285c83 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -291,6 +291,8 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
             cdmI.removeVariable(varName);
         } else {
             LOG4FIMEX(logger, Logger::INFO, "variable '" << varName << "' kept");
+            if (!cdmI.hasDimension(varName))
+                cdmI.getVariable(varName).setData(nullptr); // data in memory are not merged
         }
     }
 
-- 
2.43.0


From 0067a46801bbc27489d511c79d1acf1efefdb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 046/137] fix: unit of the x-axis was used for the y-axis in
 merging

---
 src/CDMMergeUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 6285c83..b36606a 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -267,7 +267,7 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-                valuesX, valuesY, unitIX, unitIX, CDM_DOUBLE, CDM_DOUBLE);
+                valuesX, valuesY, unitIX, unitIY, CDM_DOUBLE, CDM_DOUBLE);
 
         LOG4FIMEX(logger, Logger::INFO, "interpolating top grid");
         break;
-- 
2.43.0


From 95535d21d05cd19fdda18fc268567fdccc16aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 047/137] fix: overlay took valid values of top equal to the
 fill value of base as undefined

---
 src/CDMOverlay.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 74a9fb4..d7b9b8e 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -81,7 +81,7 @@ DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
         T& valueB = valuesB[i];
         if (!(value_is_nan<T>(valueT) || valueT == fillT))
             valueB = valueT;
-        if (value_is_nan<T>(valueB) || valueB == fillB)
+        else if (value_is_nan<T>(valueB) || valueB == fillB)
             valueB = fillT; // need to use FillValue from top
     }
     return createData(sliceB->size(), valuesB);
-- 
2.43.0


From 1f4985016d49d17f2390126db2eec6182a9b0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 048/137] fix: overlay modified the data of its base

---
 src/CDMOverlay.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index d7b9b8e..4749b8d 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -75,7 +75,7 @@ template <class T>
 DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
 {
     const auto valuesT = dataAs<T>(sliceT);
-    auto valuesB = dataAs<T>(sliceB);
+    auto valuesB = dataAs<T>(sliceB->clone());
     for (size_t i = 0; i < sliceB->size(); ++i) {
         const T valueT = valuesT[i];
         T& valueB = valuesB[i];
-- 
2.43.0


From b6e4e5badad744da665c3950ca9dda6f9a4b846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:56 +0000
Subject: [PATCH 049/137] fix: slices missing in one source were read outside
 of their data in merging

---
 src/CDMBorderSmoothing.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 2b9785d..255b01e 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -138,6 +138,13 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
+    // missing slices are undefined
+    const size_t sliceSize = product(dimSizes);
+    if (sliceI->size() == 0)
+        sliceI = createData(CDM_DOUBLE, sliceSize, MIFI_UNDEFINED_D);
+    if (sliceO->size() == 0)
+        sliceO = createData(CDM_DOUBLE, sliceSize, MIFI_UNDEFINED_D);
+
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 57b0aa9aaad75b40a657f031154476fd738dab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:56 +0000
Subject: [PATCH 050/137] fix: slices missing in one source were read outside
 of their data in overlay

---
 src/CDMOverlay.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 4749b8d..ee848a4 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -121,7 +121,9 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
     {
         DataPtr sliceT = p->readerT->getDataSlice(varName, unLimDimPos);
         DataPtr sliceB = p->interpolatedB->getDataSlice(varName, unLimDimPos);
-        if (dtT == CDM_FLOAT) {
+        if (sliceT->size() != sliceB->size()) {
+            // missing slice, see below
+        } else if (dtT == CDM_FLOAT) {
             LOG4FIMEX(logger, Logger::DEBUG, "overlay using float without scaling");
             return overlayDataSlices<float>(cdmT.getFillValue(varName), cdmB.getFillValue(varName), sliceT, sliceB);
         } else if (dtT == CDM_DOUBLE) {
@@ -145,6 +147,13 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
         sliceB = p->interpolatedB->getScaledDataSliceInUnit(varName, unitsT, unLimDimPos);
     }
 
+    if (sliceB->size() == 0)
+        sliceB = sliceT->clone(); // missing in base
+    else if (sliceT->size() == 0)
+        sliceT = sliceB; // missing in top
+    else if (sliceT->size() != sliceB->size())
+        return p->readerT->getDataSlice(varName, unLimDimPos); // not on the same grid
+
     for (size_t i=0; i<sliceB->size(); ++i) {
       const double valueT = sliceT->getDouble(i);
       if (not mifi_isnan(valueT))
-- 
2.43.0


From 423361edd84fad728e5de8bd62c3ccaf3d8b6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:09 +0000
Subject: [PATCH 051/137] fix: merging used axes of the inner source in km as
 if they were in m

---
 src/CDMMergeUtils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index b36606a..f58855f 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -262,8 +262,9 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         interpolatedO = std::make_shared<CDMInterpolator>(readerO);
         nameX = csI->getGeoXAxis()->getName();
         nameY = csI->getGeoYAxis()->getName();
-        const string& unitIX = cdmI.getUnits(nameX),
-                unitIY = cdmI.getUnits(nameY);
+        // CDMInterpolator needs axes in degree or m
+        const string unitIX = projI->isDegree() ? cdmI.getUnits(nameX) : "m",
+                unitIY = projI->isDegree() ? cdmI.getUnits(nameY) : "m";
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-- 
2.43.0


From a46fea8d9ffdf4c25587009b48bb3ff216751334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:58 +0000
Subject: [PATCH 052/137] fix: renaming a variable or dimension that does not
 exist, or to its own name, removed one

---
 src/CDM.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..c41aa35 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -184,6 +184,10 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
+    if (!hasVariable(oldName))
+        return false;
+    if (oldName == newName)
+        return true;
     pimpl_->coordsInitialized = false;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
@@ -303,6 +307,7 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName) return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From cd4d14411c856950763b190b3bc26bb6de97144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:12 +0000
Subject: [PATCH 053/137] fix: renaming an attribute in NcML to the name of
 another one changed the wrong attribute

---
 src/NcmlCDMReader.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..a19969d 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -501,9 +501,9 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
-                cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
-                attr.setName(name);
+                if (orgName != name && cdm_->hasAttribute(CDM::globalAttributeNS(), orgName))
+                    cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
+                cdm_->getAttribute(CDM::globalAttributeNS(), orgName).setName(name);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
@@ -517,9 +517,9 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
-                cdm_->removeAttribute(varName, name); // remove other attributes with same name
-                attr.setName(name);
+                if (orgName != name && cdm_->hasAttribute(varName, orgName))
+                    cdm_->removeAttribute(varName, name); // remove other attributes with same name
+                cdm_->getAttribute(varName, orgName).setName(name);
 
             } catch (CDMException& ex) {
                 // no such attribute, don't care
-- 
2.43.0


From 87d22cb43c87bea0059d188316adffd4c26f15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:39 +0000
Subject: [PATCH 054/137] fix: data in memory did not follow lengths and shapes
 changed in NcML

---
 src/NcmlCDMReader.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index a19969d..6ea6ab8 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -226,6 +226,8 @@ void NcmlCDMReader::initVariableShapeChange()
             const std::vector<std::string> old_shape = var.getShape(); // no reference as it will be replaced
             const std::vector<std::string> fimex_shape = fimexShapeFromXmlNode(node);
             var.setShape(fimex_shape);
+            if (fimex_shape != old_shape)
+                var.setData(nullptr); // data in memory have the old shape, read the data from the source
             LOG4FIMEX(logger, Logger::DEBUG,
                       "changing shape of variable: " << name << " from " << join(old_shape.begin(), old_shape.end(), ",") << " to "
                                                      << join(fimex_shape.begin(), fimex_shape.end(), ","));
@@ -450,6 +452,11 @@ void NcmlCDMReader::initDimensionNameChange()
             // very dangerous to change existing length, might fail...
             // but might be used in some unlimited cases
             cdm_->getDimension(name).setLength(length);
+            // data in memory have the old length, read the data from the source
+            for (const CDMVariable& v : cdm_->getVariables()) {
+                if (v.checkDimension(name))
+                    cdm_->getVariable(v.getName()).setData(nullptr);
+            }
         }
     }
 }
-- 
2.43.0


From f8a26be095bff3364feac713d49d4b2221d2a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 055/137] fix: theta2T used the name of the variable after its
 deletion

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..31d2c20 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    const std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From f8f7909c212c3ab12494b42d50b35da8133ebb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 056/137] fix: specific2relative did not end or read behind the
 list of variables without temperature of the same grid

---
 src/CDMPressureConversions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 31d2c20..e8e0dcf 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -359,9 +359,9 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
-            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
+            LOG4FIMEX(logger, Logger::WARN, "no '" << AIR_TEMPERATURE << "' with the coordinate system of '" << *itSpecific << "' found");
             continue;
         }
 
-- 
2.43.0


From f8130f864c101dfb2a32a0df9843d5dac8e10a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 057/137] fix: add4Dpressure used a vertical converter after it
 could not be created

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index e8e0dcf..90276ed 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -565,6 +565,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From 12d00ecbd72239d4473df9ce05730a72d1457a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 058/137] fix: omega2vwind lost the coordinates of the
 converted variable

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 90276ed..b4f7dec 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -478,7 +478,7 @@ Converter_pv OmegaVerticalConverterFactory::createConverter(Environment& env, co
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(STANDARD_NAME, UPWARD_AIR_VELOCITY));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(UNITS, "m/s"));
     CDMAttribute xatt;
-    if (env.inputCDM.getAttribute(verticalWindName, COORDINATES, xatt)) {
+    if (env.inputCDM.getAttribute(omega, COORDINATES, xatt)) {
         env.outputCDM->addAttribute(verticalWindName, xatt);
     }
     env.outputCDM->removeVariable(omega); // why?
-- 
2.43.0


From fee15c730ba40f30655cce067974436ca1570eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 059/137] fix: pressure conversions used pressures in another
 shape than the converted variable

---
 src/CDMPressureConversions.cc | 46 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index b4f7dec..d7bade2 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -199,6 +199,38 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
 
 // ------------------------------------------------------------------------------------------------
 
+// pressure (hPa) in the shape of a variable, i.e. repeated along the dimensions not used by the converter
+DataPtr pressureInShape(VerticalConverter_p vc, const CDM& cdm, const std::vector<std::string>& shape, size_t unLimDimPos)
+{
+    SliceBuilder sbIn = createSliceBuilder(cdm, vc);
+    setUnLimDimPos(cdm, sbIn, unLimDimPos);
+    SliceBuilder sbOut = createSliceBuilder(cdm, shape);
+    setUnLimDimPos(cdm, sbOut, unLimDimPos);
+    const ArrayDims dimsIn = makeArrayDims(sbIn), dimsOut = makeArrayDims(sbOut);
+    for (size_t d = 0; d < dimsIn.rank(); ++d) {
+        if (dimsIn.length(d) != dimsOut.length(dimsIn.dim_name(d)))
+            throw CDMException("pressure depends on '" + dimsIn.dim_name(d) + "' while the variable does not");
+    }
+
+    auto in = checkData(vc->getDataSlice(sbIn), dimsIn.volume(), "pressure")->asFloat();
+    auto out = make_shared_array<VerticalData_t>(dimsOut.volume());
+    ArrayGroup group;
+    group.add(dimsIn).add(dimsOut);
+    const size_t shared = group.sharedVolume();
+    Loop loop(group);
+    do {
+        std::copy(&in[loop[0]], &in[loop[0]] + shared, &out[loop[1]]);
+    } while (loop.next());
+    return createData(dimsOut.volume(), out);
+}
+
+DataPtr pressureForVariable(CoordinateSystem_cp cs, CDMReader_p reader, const std::string& varName, size_t unLimDimPos)
+{
+    return pressureInShape(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), reader->getCDM(), reader->getCDM().getVariable(varName).getShape(), unLimDimPos);
+}
+
+// ------------------------------------------------------------------------------------------------
+
 class ThetaTemperatureConverter : public Converter {
 public:
     ThetaTemperatureConverter(const std::string& temperature, CDMReader_p reader, CoordinateSystem_cp cs, const std::string& theta)
@@ -219,7 +251,7 @@ private:
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, theta_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -312,7 +344,7 @@ private:
 
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, specific_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -422,7 +454,7 @@ private:
 
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, omega_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
     const size_t size = pressureData->size();
     VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
@@ -508,13 +540,7 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    const CDM& rcdm = reader_->getCDM();
-    DataPtr vcdata = verticalData4D(vc_, rcdm, unLimDimPos);
-    if (vc_->getShape() != shape4d_) {
-        LOG4FIMEX(logger, Logger::WARN, "4d pressure shape change not implemented, results are probably wrong");
-        // FIXME vcdata = reshape(rcdm, vc_->getShape(), shape4d_, vcdata);
-    }
-    return vcdata;
+    return pressureInShape(vc_, reader_->getCDM(), shape4d_, unLimDimPos);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3a77c0b824aa467d4a1011c6b12b01cba7a89709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 060/137] fix: theta2T used fill values and packing as numbers

---
 src/CDMPressureConversions.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index d7bade2..58448ec 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -255,8 +255,11 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
-    const float add_offset = reader_->getCDM().getAddOffset(theta_);
-    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
+    const CDM& cdm = reader_->getCDM();
+    const double scale_factor = cdm.getScaleFactor(theta_);
+    const double add_offset = cdm.getAddOffset(theta_) / scale_factor; // in packed units
+    const double fill = cdm.getFillValue(theta_);
+    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asDouble();
 
     const float cp = 1004.; // J/kgK
     const float R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR; // J/K
@@ -265,9 +268,10 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const float Rcp = R/cp;
     for (size_t i = 0; i < size; i++) {
         // theta = T * (ps / p)^(R/cp) => T = theta * (p/ps)^(R/cp)
-        thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
+        if (thetaValues[i] != fill)
+            thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
     }
-    return createData(size, thetaValues);
+    return createData(size, thetaValues)->convertDataType(fill, 1, 0, cdm.getVariable(theta_).getDataType(), fill, 1, 0);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 02fda122ad49c070b8232187c00d83dc380cbe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 061/137] fix: specific2relative gave numbers for undefined
 values

---
 src/CDMPressureConversions.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 58448ec..d5b0a46 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -42,6 +42,7 @@
 
 #include "CDMMergeUtils.h"
 
+#include <cmath>
 #include <memory>
 
 namespace MetNoFimex
@@ -72,6 +73,7 @@ typedef float VerticalData_t;
 typedef shared_array<VerticalData_t> VerticalDataArray;
 
 const float relative_humidity_scale_factor = 25000;
+const short relative_humidity_fill_value = -32767;
 
 typedef std::map<std::string, std::string> string_string_m;
 
@@ -362,6 +364,10 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
         // we have to divide by 100; as we know the formula, we drop
         // multiplying and then dividing
         const float c100 = 1;
+        if (std::isnan(shValues[i]) || std::isnan(airtValues[i]) || std::isnan(pressureValues[i])) {
+            rhValues[i] = relative_humidity_fill_value;
+            continue;
+        }
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
         rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
     }
@@ -424,6 +430,7 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(STANDARD_NAME, RELATIVE_HUMIDITY));
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(LONG_NAME, "relative humidity derived from " + *itSpecific + " and " + *itTemp));
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(UNITS, "1"));
+        env.outputCDM->addAttribute(relativeHumName, CDMAttribute(FILL_VALUE, relative_humidity_fill_value));
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(VALID_MIN, 0));
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(VALID_MAX, (short)relative_humidity_scale_factor));
         env.outputCDM->addAttribute(relativeHumName, CDMAttribute(SCALE_FACTOR, 1/relative_humidity_scale_factor));
-- 
2.43.0


From f8070b089ef6e82350eb2456692bac5691b36f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:23 +0000
Subject: [PATCH 062/137] fix: specific2relative gave humidities above 100% up
 to an overflow of their packing

---
 src/CDMPressureConversions.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index d5b0a46..625d90f 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -360,10 +360,9 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
     for (size_t i = 0; i < size; i++) {
         // we have pressure in hPa and need Pa for
         // mifi_specific_to_relative_humidity, we must multiply our
-        // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100; as we know the formula, we drop
-        // multiplying and then dividing
-        const float c100 = 1;
+        // pressure with 100; we get relhum in %, limited to 100%, but
+        // want unit "1", ie we have to divide by 100
+        const float c100 = 100;
         if (std::isnan(shValues[i]) || std::isnan(airtValues[i]) || std::isnan(pressureValues[i])) {
             rhValues[i] = relative_humidity_fill_value;
             continue;
-- 
2.43.0


From 9b15dbdef36f032de18d16c5e0aa5a08be5e25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 063/137] fix: filling compared shapes behind the end of the
 shorter one

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..42a8388 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -217,7 +217,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From d5687fac3081a03ea66486176654204493cd5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 064/137] fix: filling ignored different units of input and
 output axes

---
 src/FillWriter.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 42a8388..fcadfa1 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -32,9 +32,11 @@
 #include "fimex/Logger.h"
 #include "fimex/SliceBuilder.h"
 #include "fimex/TokenizeDotted.h"
+#include "fimex/Units.h"
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <map>
 #include <set>
 #include <utility>
@@ -109,6 +111,12 @@ std::string findFirstUnusableDimension(const std::set<std::string>& unusableDims
     }
     return std::string();
 }
+
+bool haveDifferentUnits(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const std::string iUnits = iCdm.getUnits(varName), oUnits = oCdm.getUnits(varName);
+    return !iUnits.empty() && !oUnits.empty() && iUnits != oUnits && Units().areConvertible(iUnits, oUnits);
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -134,13 +142,17 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         }
         if (iCdm.hasVariable(iDim.getName()) && oCdm.hasVariable(oDimsIt->getName())) {
             // rewrite coordinate-variables
-            auto iDimData = in->getScaledData(iDim.getName())->asDouble();
+            const bool differentUnits = haveDifferentUnits(iCdm, oCdm, iDim.getName());
+            auto iDimData =
+                (differentUnits ? in->getScaledDataInUnit(iDim.getName(), oCdm.getUnits(iDim.getName())) : in->getScaledData(iDim.getName()))->asDouble();
             auto oDimData = io->getScaledData(iDim.getName())->asDouble();
             size_t changes = 0;
             size_t unLimCount = 0;
             map<size_t, size_t> currentSlices;
             for (size_t i = 0; i < iDim.getLength(); ++i) {
-                double* found = find(&oDimData[0], &oDimData[0] + oDimsIt->getLength(), iDimData[i]);
+                // values converted between units might have rounding errors
+                const double value = iDimData[i], eps = differentUnits ? 1e-10 * std::abs(value) : 0;
+                double* found = find_if(&oDimData[0], &oDimData[0] + oDimsIt->getLength(), [=](double o) { return std::abs(o - value) <= eps; });
                 size_t oPos = distance(&oDimData[0], found);
                 if (oPos == oDimsIt->getLength()) {
                     // not found, put at first position after output
-- 
2.43.0


From 57a031d834e9060021df429f3fcb4a3bac088482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 065/137] fix: filling wrote values of input in another
 packing, fill value or unit than that of output

---
 src/FillWriter.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index fcadfa1..b7441ab 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -117,6 +117,17 @@ bool haveDifferentUnits(const CDM& iCdm, const CDM& oCdm, const std::string& var
     const std::string iUnits = iCdm.getUnits(varName), oUnits = oCdm.getUnits(varName);
     return !iUnits.empty() && !oUnits.empty() && iUnits != oUnits && Units().areConvertible(iUnits, oUnits);
 }
+
+//! check if data of the variable can be copied without conversion
+bool haveSameRepresentation(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const CDMDataType iType = iCdm.getVariable(varName).getDataType(), oType = oCdm.getVariable(varName).getDataType();
+    if (iType == CDM_STRING || iType == CDM_STRINGS || oType == CDM_STRING || oType == CDM_STRINGS)
+        return true;
+    const double iFill = iCdm.getFillValue(varName), oFill = oCdm.getFillValue(varName);
+    return iType == oType && (iFill == oFill || (std::isnan(iFill) && std::isnan(oFill))) && iCdm.getScaleFactor(varName) == oCdm.getScaleFactor(varName) &&
+           iCdm.getAddOffset(varName) == oCdm.getAddOffset(varName) && !haveDifferentUnits(iCdm, oCdm, varName);
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -284,8 +295,14 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
         for (const auto& slice : slices) {
             LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-            DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-            io->putDataSlice(iv.getName(), slice.second, inData);
+            if (haveSameRepresentation(iCdm, oCdm, iv.getName())) {
+                io->putDataSlice(iv.getName(), slice.second, in->getDataSlice(iv.getName(), slice.first));
+            } else {
+                DataPtr inData = haveDifferentUnits(iCdm, oCdm, iv.getName())
+                                     ? in->getScaledDataSliceInUnit(iv.getName(), oCdm.getUnits(iv.getName()), slice.first)
+                                     : in->getScaledDataSlice(iv.getName(), slice.first);
+                io->putScaledDataSlice(iv.getName(), slice.second, inData);
+            }
         }
     }
     if (!unusableIDims.empty())
-- 
2.43.0


From 3b1091d74b8848784e29432e867cd278ca22438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 066/137] fix: netcdf writer could not rename the unlimited
 dimension

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..c6a30c7 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -94,11 +94,11 @@ int getNcVersion(int version, XMLDoc_p doc)
     return retVal;
 }
 
-int ncDimId(int ncId, const CDMDimension* unLimDim)
+int ncDimId(int ncId, const std::string& dimName)
 {
     int unLimDimId = -1;
-    if (unLimDim)
-        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, unLimDim->getName().c_str(), &unLimDimId)));
+    if (!dimName.empty())
+        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, dimName.c_str(), &unLimDimId)));
     return unLimDimId;
 }
 
@@ -582,7 +582,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
 void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 {
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
-    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim);
+    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim ? getDimensionName(unLimDim->getName()) : std::string());
     const long long maxUnLim = (unLimDim == 0) ? 0 : unLimDim->getLength();
     const CDM::VarVec& cdmVars = cdm.getVariables();
 
-- 
2.43.0


From b8fc1b5b6e4a71d9d56635ffa916f5160e8c8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 067/137] fix: netcdf reader ignored errors when reading
 variable definitions and global attributes

---
 src/io/netcdf/NetCDF_CDMReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..9d3e870 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -93,7 +93,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
         char ncName[NC_MAX_NAME + 1];
         for (int i = 0; i < nvars; ++i) {
             nc_type dtype;
-            nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts);
+            ncCheck(nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts));
             std::vector<std::string> shape;
             shape.reserve(ndims);
             // reverse dimensions
@@ -119,7 +119,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
     // define global attributes
     {
         int natts;
-        nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts);
+        ncCheck(nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts));
         char attName[NC_MAX_NAME + 1];
         for (int j = 0; j < natts; ++j) {
             ncCheck(nc_inq_attname(ncFile->ncId, NC_GLOBAL, j, attName));
-- 
2.43.0


From ffcd20ad893f98f97fdfa0519177bc556744ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 068/137] fix: netcdf reader mixed up data along an unlimited
 dimension that is not the slowest one

---
 src/io/netcdf/NetCDF_CDMReader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 9d3e870..d5d83ca 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -64,10 +64,10 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
     ncFile->isOpen = true;
 
     // investigate the dimensions
+    int recid;
     {
         int ndims;
         ncCheck(nc_inq_ndims(ncFile->ncId, &ndims));
-        int recid;
         ncCheck(nc_inq_unlimdim(ncFile->ncId, &recid));
         // read metadata to cdm
         // define dimensions
@@ -101,6 +101,11 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
             for (int j = ndims - 1; j >= 0; --j) {
                 ncCheck(nc_inq_dimname(ncFile->ncId, dimids[j], dimName));
                 shape.push_back(dimName);
+                if (j > 0 && dimids[j] == recid) {
+                    // slices along the unlimited dimension must be contiguous; only possible in netcdf4
+                    OmpScopedUnlock unlock(Nc::getMutex());
+                    cdm_->getDimension(dimName).setUnlimited(false);
+                }
             }
             {
                 OmpScopedUnlock unlock(Nc::getMutex());
-- 
2.43.0


From 129f96515102a73f0e42cdf6047368cd4a2c2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 069/137] fix: netcdf writer reported success when data could
 not be written or the file not be closed

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 10 +++++++++-
 src/io/netcdf/NetCDF_Utils.cc     |  6 ++++++
 src/io/netcdf/NetCDF_Utils.h      |  1 +
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index c6a30c7..aa8a7ca 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -722,15 +722,22 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            int status;
+            NCMUTEX_LOCKED(status = nc_sync(ncFile->ncId)); // sync every 'time/unlimited' step (does not work with MPI)
+            if (status != NC_NOERR) {
+                LOG4FIMEX(logger, Logger::ERROR, "error while writing to '" << ncFile->filename << "': " << nc_strerror(status));
+                exceptions = true;
+            }
         }
 #endif
     }
@@ -748,6 +755,7 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+    ncFile->close();
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fe182e..7c8fc0b 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -104,6 +104,12 @@ Nc::~Nc()
     }
 }
 
+void Nc::close()
+{
+    isOpen = false;
+    NCMUTEX_LOCKED(ncCheck(nc_close(ncId), "closing " + filename));
+}
+
 void Nc::reopen_if_forked()
 {
     pid_t this_pid = getpid();
diff --git a/src/io/netcdf/NetCDF_Utils.h b/src/io/netcdf/NetCDF_Utils.h
index 8b1c836..2f22e8f 100644
--- a/src/io/netcdf/NetCDF_Utils.h
+++ b/src/io/netcdf/NetCDF_Utils.h
@@ -67,6 +67,7 @@ public:
     int format;
     bool isOpen;
     pid_t pid;
+    void close(); //!< @throws CDMException if the file could not be closed
     void reopen_if_forked();
     bool supports_nc_string() const { return format == NC_FORMAT_NETCDF4; }
 };
-- 
2.43.0


From e5923c3e8e476565ac08d63e7dcc43b2329713d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 070/137] fix: netcdf files in 64bit formats were not
 recognized, short files read beyond their end

---
 src/io/netcdf/NetCDFIoFactory.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index 5f4ddcb..3cffae1 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -61,12 +61,13 @@ bool detectHDF5(const char* magic)
 
 bool detectNetCDF(const char* magic)
 {
-    const char* netcdf = "CDF\001";
-    for (int i = 0; i < 4; i++) {
+    const char* netcdf = "CDF";
+    for (int i = 0; i < 3; i++) {
         if (netcdf[i] != magic[i])
             return false;
     }
-    return true;
+    // classic, 64bit-offset and 64bit-data formats
+    return magic[3] == '\001' || magic[3] == '\002' || magic[3] == '\005';
 }
 
 bool isNetCDF4Type(const std::string& type)
@@ -119,7 +120,7 @@ size_t NetCDFIoFactory::matchMagicSize()
 
 int NetCDFIoFactory::matchMagic(const char* magic, size_t count)
 {
-    if ((count >= 4 && detectHDF5(magic)) || (count >= 7 && detectNetCDF(magic)))
+    if ((count >= 7 && detectHDF5(magic)) || (count >= 4 && detectNetCDF(magic)))
         return 1;
     return 0;
 }
-- 
2.43.0


From fa1989f9da4b644531bc9e6c2cb45d9eca097781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 071/137] fix: reading netcdf slices by position after a fork
 waited forever for its own lock

---
 src/io/netcdf/NetCDF_CDMReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index d5d83ca..537f62c 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -142,8 +142,9 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
         return getDataSliceFromMemory(var, unLimDimPos);
     }
 
-    OmpScopedLock lock(Nc::getMutex());
     ncFile->reopen_if_forked();
+
+    OmpScopedLock lock(Nc::getMutex());
     int varid;
     ncCheck(nc_inq_varid(ncFile->ncId, var.getName().c_str(), &varid));
     nc_type dtype;
-- 
2.43.0


From 7ac2534f6838620bc52d3293faa18f2ebce87f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:18 +0000
Subject: [PATCH 072/137] fix: reading accumulated variables in parallel used
 the slice cache of another thread

---
 src/CDMProcessor.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 4ca4eb4..e447a74 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -104,6 +105,7 @@ struct CDMProcessor::CDMProcessorImpl
     // horizontalId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex; // several threads might read at once
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -646,12 +648,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data->clone();
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data->clone();
                 } else {
-                    accumulateDataP2Data(data, p_->sliceCache.data, false, packing);
+                    accumulateDataP2Data(data, cached.data, false, packing);
                 }
             }
             // data contains last slice + eventually cache
@@ -660,9 +667,11 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 accumulateDataP2Data(data, dataP, i == 0, packing);
             }
             // fill the cache
-            p_->sliceCache.varName = varName;
-            p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data->clone();
+            cached.varName = varName;
+            cached.ulimDimPos = unLimDimPos;
+            cached.data = data->clone();
+            OmpScopedLock lock(p_->sliceCacheMutex);
+            p_->sliceCache = cached;
         }
     }
 
-- 
2.43.0


From ae29707547afe04cd165b5f7d75edb63b92a4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 073/137] fix: after a fork, threads read from the parent's
 netcdf file while another one was reopening it

---
 src/io/netcdf/NetCDF_Utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 7c8fc0b..f6388c9 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -113,11 +113,11 @@ void Nc::close()
 void Nc::reopen_if_forked()
 {
     pid_t this_pid = getpid();
+    OmpScopedLock lock(ncMutex); // other threads have to wait until the file is reopened
     if (pid != this_pid) {
         pid = this_pid;
         LOG4FIMEX(logger, Logger::DEBUG, "reopening file " << filename << " after fork to " << pid << " '" << ncId << "' ");
 
-        OmpScopedLock lock(ncMutex);
         // reopen file so file descriptions (e.g. offset) are not shared
         ncCheck(nc_close(ncId), "closing parent filehandle");
         ncCheck(nc_open(filename.c_str(), NC_NOWRITE, &ncId), "re-opening '" + filename + "' after fork");
-- 
2.43.0


From 0df9803ebc5f2cda3baa9ead6efd2faf8e0c7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 074/137] fix: errors while reading ended the program when
 filling

---
 src/FillWriter.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index b7441ab..73ef6ec 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -213,10 +214,11 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    std::exception_ptr failure; // exceptions must not leave the parallel loop
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (int iVar = 0; iVar < varVecSize; iVar++) {
+    for (int iVar = 0; iVar < varVecSize; iVar++) try {
         const auto& iv = iVars.at(iVar);
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
@@ -304,7 +306,14 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
                 io->putScaledDataSlice(iv.getName(), slice.second, inData);
             }
         }
+    } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(fillwriter_failure)
+#endif
+        failure = std::current_exception();
     }
+    if (failure)
+        std::rethrow_exception(failure);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
-- 
2.43.0


From dd983c8b79e2cf64286014945e31b40da5223259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 075/137] fix: errors while reading ended the program with the
 null-writer

---
 src/Null_CDMWriter.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Null_CDMWriter.cc b/src/Null_CDMWriter.cc
index f63856f..98cc0b8 100644
--- a/src/Null_CDMWriter.cc
+++ b/src/Null_CDMWriter.cc
@@ -33,6 +33,9 @@
 #include "fimex/Type2String.h"
 
 #include "fimex_config.h"
+
+#include <exception>
+
 #ifdef HAVE_MPI
 #include "fimex/mifi_mpi.h"
 #endif
@@ -113,10 +116,11 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
     // write data
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
+    std::exception_ptr failure; // exceptions must not leave the parallel loop
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) {
+    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) try {
 #ifdef HAVE_MPI
         if (mifi_mpi_initialized()) {
             // only work on variables which belong to this mpi-process (modulo-base)
@@ -143,7 +147,14 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
                                    ", datatype: " + type2string(cdmVar.getDataType()));
             }
         }
+    } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(null_cdmwriter_failure)
+#endif
+        failure = std::current_exception();
     }
+    if (failure)
+        std::rethrow_exception(failure);
 }
 
 Null_CDMWriter::~Null_CDMWriter()
-- 
2.43.0


From 86d6a3b536ae07e957c8fc928bcd7d148d523630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:19 +0000
Subject: [PATCH 076/137] fix: errors of the netcdf library while writing data
 ended the program

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index aa8a7ca..a195056 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <numeric>
@@ -595,7 +596,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
     // see http://www.unidata.ucar.edu/support/help/MailArchives/netcdf/msg10905.html
     // use unLimDimPos = -1 for variables without unlimited dimension
 
-    bool exceptions = false;
+    std::atomic<bool> exceptions(false);
 #ifdef _OPENMP
 #if (defined(__GNUC__) && __GNUC__ >= 9) || defined(__clang__)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, maxUnLim, unLimDimId, exceptions)
@@ -642,7 +643,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
             std::unique_ptr<size_t[]> count;
             std::unique_ptr<size_t[]> start;
             int unLimDimIdx = -1;
-            {
+            try {
                 OmpScopedLock ncLock(Nc::getMutex());
 
                 ncCheck(nc_inq_varndims(ncFile->ncId, varId, &n_dims));
@@ -661,6 +662,10 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                     start[i] = 0;
                     count[i] = dim_len;
                 }
+            } catch (std::exception& ex) {
+                LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " before writing variable " << varName);
+                exceptions = true;
+                continue;
             }
             LOG4FIMEX(logger, Logger::DEBUG, "dimids of " << varName << ": " << join(&dim_ids[0], &dim_ids[0] + n_dims));
 
-- 
2.43.0


From 9da176cc3ef1fa1b56bb1b04a2780ac13f2f2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:09 +0000
Subject: [PATCH 077/137] fix: threads logging for the first time at once used
 a deleted logger class

---
 src/Logger.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index 0005c9d..71ab78f 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -122,10 +122,15 @@ bool Logger::setClass(LogClass logClass)
 
 LoggerClass* getLoggerClass()
 {
-    // FIXME should lock here ...
-    if (!loggerClass_)
-        // ... and unlock here
-        Logger::setClass(Logger::LOG4CPP);
+    OmpScopedLock lock(loggerMutex);
+    if (!loggerClass_) {
+#ifdef HAVE_LOG4CPP
+        Log4cppClass::configureMinimal(defaultLogLevel());
+        loggerClass_ = new Log4cppClass;
+#else
+        loggerClass_ = new Log2StderrClass;
+#endif
+    }
     return loggerClass_;
 }
 
-- 
2.43.0


From 6fe13d0438a24a27b89fdab42985a336d74c62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 078/137] fix: relative axis values like x+10.5 lost their
 decimals, relative axes with negative start or end were misplaced

---
 src/SpatialAxisSpec.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4c6f074..ffe6996 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -33,6 +33,7 @@
 #include "fimex/Units.h"
 
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <regex>
 #include <vector>
@@ -59,7 +60,7 @@ public:
         std::string retVal;
         if (value != "...") {
             std::smatch what;
-            std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+            std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
             double retDouble;
             if (std::regex_search(value, what, finalVals)) {
                 if (what.size() >= 3) {
@@ -134,15 +135,10 @@ void SpatialAxisSpec::init()
         Units units;
         // find the position 0 in the relative times
         double startU = start; // TODO check unit
-        double startOffset = static_cast<int> (startU / delta) * delta;
-        if (startU < startOffset) {
-            // cast to largest value below startU
-            // but I want smallest value above startU
-            startOffset += delta;
-        }
+        double startOffset = std::floor(startU / delta) * delta;
         // find position x in the relative times
         double endU = end; // TODO check unit
-        double finalU = static_cast<int> (endU / delta) * delta;
+        double finalU = std::floor(endU / delta) * delta;
         transform(places.begin(), places.end(), places.begin(),
                 TranslateRelativePlace(startOffset, finalU));
         string absolutPlaces = join(places.begin(), places.end(), ",");
-- 
2.43.0


From 79862e6afa73b7648eff26badaaaa7a4f32f70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 079/137] fix: relative times like x+10.5 lost their decimals

---
 src/TimeSpec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index 59b2bb6..ec21f53 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -60,7 +60,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+    std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
     if (std::regex_search(value, what, finalVals)) {
         assert(what.size() == 3); // defined by regex
         if (what[2] == "") {
-- 
2.43.0


From 575edbc5cd1609af4ad06aec0f56445bbdaaacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 080/137] fix: a space after the dots of an axis specification
 was refused

---
 include/fimex/TokenizeDotted.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 6f1a8f1..d0e631c 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -58,7 +58,7 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             double direction = (dist > 0) ? 1 : -1;
             if (tok + 1 != tokens.end()) {
                 ++tok;
-                T afterDotVal = string2type<T>(*tok);
+                T afterDotVal = string2type<T>(trim(*tok));
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
                 while (dist != T(0) && (curVal - afterDotVal) * direction < roundError) {
-- 
2.43.0


From df802b5a29b211c28968132ab25c4f9c5579a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 081/137] fix: forward interpolation mixed values of different
 threads

---
 src/CachedForwardInterpolation.cc | 32 +++++++++++++++++++------------
 src/CachedForwardInterpolation.h  |  3 ++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 04eab0f..801ab68 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -130,9 +130,10 @@ float AggMedian::get_and_reset()
 }
 
 // pointsOnXAxis map each point in inData[y*inX+x] to a x-position in outData
-CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimName, const std::string& yDimName, int funcType, shared_array<double> pOnX,
+CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimName, const std::string& yDimName, int funcType_, shared_array<double> pOnX,
                                                        shared_array<double> pOnY, size_t inx, size_t iny, size_t outx, size_t outy)
     : CachedInterpolationInterface(xDimName, yDimName, inx, iny, outx, outy)
+    , funcType(funcType_)
 {
     const size_t outLayerSize = outX * outY;
     pointsInIn = make_shared_array<vector<size_t>>(outLayerSize);
@@ -182,19 +183,25 @@ CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimNa
         inY = redInY;
     }
 
-    undefAggr = false;
+    undefAggr = (funcType == MIFI_INTERPOL_FORWARD_UNDEF_SUM || funcType == MIFI_INTERPOL_FORWARD_UNDEF_MEAN ||
+                 funcType == MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN || funcType == MIFI_INTERPOL_FORWARD_UNDEF_MAX || funcType == MIFI_INTERPOL_FORWARD_UNDEF_MIN);
+    createAggregator(); // check funcType
+}
+
+std::unique_ptr<Aggregator> CachedForwardInterpolation::createAggregator() const
+{
     // clang-format off
     switch (funcType) {
-    case MIFI_INTERPOL_FORWARD_UNDEF_SUM: undefAggr = true; // fallthrough
-    case MIFI_INTERPOL_FORWARD_SUM: agg.reset(new AggSum()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MEAN: undefAggr = true; // fallthrough
-    case MIFI_INTERPOL_FORWARD_MEAN: agg.reset(new AggMean()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN: undefAggr = true; // fallthrough
-    case MIFI_INTERPOL_FORWARD_MEDIAN: agg.reset(new AggMedian(maxPointsInIn)); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MAX: undefAggr = true; // fallthrough
-    case MIFI_INTERPOL_FORWARD_MAX: agg.reset(new AggMax()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MIN: undefAggr = true; // fallthrough
-    case MIFI_INTERPOL_FORWARD_MIN: agg.reset(new AggMin()); break;
+    case MIFI_INTERPOL_FORWARD_UNDEF_SUM:
+    case MIFI_INTERPOL_FORWARD_SUM: return std::unique_ptr<Aggregator>(new AggSum());
+    case MIFI_INTERPOL_FORWARD_UNDEF_MEAN:
+    case MIFI_INTERPOL_FORWARD_MEAN: return std::unique_ptr<Aggregator>(new AggMean());
+    case MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN:
+    case MIFI_INTERPOL_FORWARD_MEDIAN: return std::unique_ptr<Aggregator>(new AggMedian(maxPointsInIn));
+    case MIFI_INTERPOL_FORWARD_UNDEF_MAX:
+    case MIFI_INTERPOL_FORWARD_MAX: return std::unique_ptr<Aggregator>(new AggMax());
+    case MIFI_INTERPOL_FORWARD_UNDEF_MIN:
+    case MIFI_INTERPOL_FORWARD_MIN: return std::unique_ptr<Aggregator>(new AggMin());
     default: throw CDMException("unknown forward interpolation method: " + type2string(funcType));
     }
     // clang-format on
@@ -209,6 +216,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     size_t inZ = size / inLayerSize;
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
+    const std::unique_ptr<Aggregator> agg = createAggregator(); // several threads might interpolate at once
     for (size_t z = 0; z < inZ; ++z) {
         const float* inDataZ = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
diff --git a/src/CachedForwardInterpolation.h b/src/CachedForwardInterpolation.h
index f9fc9a4..f59207a 100644
--- a/src/CachedForwardInterpolation.h
+++ b/src/CachedForwardInterpolation.h
@@ -38,7 +38,8 @@ class CachedForwardInterpolation : public CachedInterpolationInterface
 private:
     shared_array<std::vector<size_t>> pointsInIn;
     size_t maxPointsInIn;
-    std::unique_ptr<Aggregator> agg;
+    int funcType;
+    std::unique_ptr<Aggregator> createAggregator() const;
     bool undefAggr;
 
 public:
-- 
2.43.0


From 3baabcb0c48149c36ac9276283f21b41ce220ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 082/137] fix: the second standard parallel of conic
 projections was ignored

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 2 +-
 src/coordSys/LambertConformalConicProjection.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..a5ff7de 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -92,7 +92,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..4d5cf66 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -90,7 +90,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
-- 
2.43.0


From c693e30fc204bcd7dd80f1eacc963e3b52c416ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 083/137] fix: standard parallels and rotations were cut to 6
 digits in proj strings

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc   | 3 +++
 src/coordSys/LambertConformalConicProjection.cc    | 3 +++
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index a5ff7de..50a15b0 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -29,6 +29,8 @@
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
 
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -91,6 +93,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
+        oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1);
         oproj << " +lat_1=" << spData->asDouble()[0];
         if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4d5cf66..183e39d 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -27,6 +27,8 @@
 #include "fimex/coordSys/LambertConformalConicProjection.h"
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -89,6 +91,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
+        oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1);
         oproj << " +lat_1=" << spData->asDouble()[0];
         if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..5621b3b 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -29,6 +29,8 @@
 #include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -95,7 +97,7 @@ std::ostream& RotatedLatitudeLongitudeProjection::getProj4ProjectionPart(std::os
     std::vector<CDMAttribute>::const_iterator foundAttr = std::find_if(params_.begin(), params_.end(), CDMNameEqual("grid_north_pole_longitude"));
     if (foundAttr != params_.end()) {
         if (foundAttr->getData()->size() > 0) {
-            oproj << " +lon_0=" << (foundAttr->getData()->asDouble()[0]-180);
+            oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1) << " +lon_0=" << (foundAttr->getData()->asDouble()[0]-180);
         }
     }
     addParameterToStream(oproj, "grid_north_pole_latitude", " +o_lat_p=");
-- 
2.43.0


From c88b9bcc996152131b2f82c2ceffb13b938e95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 084/137] fix: a negative north_pole_grid_longitude was dropped

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 5621b3b..65f9003 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (north_pole_grid_lon != 0) { //optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
-- 
2.43.0


From f54a45dabf95397bd2ff67f55aabde1015f904a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 085/137] fix: the scale factor +k_0 was ignored in proj
 strings

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 2 +-
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f49acdf 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..ef956f7 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From 0dae022ab3d6161ded8759dd1663cbddac3c1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 086/137] fix: the inverse flattening +rf of proj strings was
 ignored

---
 src/coordSys/ProjectionImpl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..d58c105 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -245,6 +245,8 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From 2af3c846e387196de6abad84a253bac02abd3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 087/137] fix: the sweep axis of a geostationary projection was
 lost

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From 9fadefe567f8ad380ea4358e086eef5bf22d3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 088/137] fix: utm with a negative or fractional meridian

---
 src/coordSys/TransverseMercatorProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 56fb439..f0680a1 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
         }
         // some people use utm with lon_0 instead of zone
-        if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\d+|\\d+\\.\\d+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
             longOfProjOrigin = string2type<double>(what[1].str());
             attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
         }
-- 
2.43.0


From 9d25074503cfd25052ee4a22064fa03c55d0c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 089/137] fix: a polar stereographic proj string without
 longitude was refused

---
 src/coordSys/PolarStereographicProjection.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordSys/PolarStereographicProjection.cc b/src/coordSys/PolarStereographicProjection.cc
index 336b84e..06a7f7e 100644
--- a/src/coordSys/PolarStereographicProjection.cc
+++ b/src/coordSys/PolarStereographicProjection.cc
@@ -67,10 +67,12 @@ std::vector<CDMAttribute> PolarStereographicProjection::parametersFromProj4(cons
 
     // switch longitude_of_projection_origin to straight_vertical_longitude_from_pole
     found = find_if(attrs.begin(), attrs.end(), CDMNameEqual("longitude_of_projection_origin"));
-    if (found == attrs.end())
-        throw CDMException("no longitude_of_projection_origin for PolarStereographicProjection");
-    double lonVal = found->getData()->asDouble()[0];
-    *found = CDMAttribute("straight_vertical_longitude_from_pole", lonVal);
+    if (found == attrs.end()) {
+        attrs.push_back(CDMAttribute("straight_vertical_longitude_from_pole", 0.)); // default of +lon_0
+    } else {
+        double lonVal = found->getData()->asDouble()[0];
+        *found = CDMAttribute("straight_vertical_longitude_from_pole", lonVal);
+    }
 
     return attrs;
 }
-- 
2.43.0


From 696d7a8c60036322ec8ad785f46532da8f4a5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 090/137] fix: replacing the earth figure kept parts of the old
 one

---
 src/coordSys/Projection.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordSys/Projection.cc b/src/coordSys/Projection.cc
index f70eb71..1c45a23 100644
--- a/src/coordSys/Projection.cc
+++ b/src/coordSys/Projection.cc
@@ -214,6 +214,9 @@ std::string replaceProj4Earthfigure(const std::string& proj4, const std::string&
         if (parts.at(i).find("+a=") != string::npos) continue;
         if (parts.at(i).find("+b=") != string::npos) continue;
         if (parts.at(i).find("+e=") != string::npos) continue;
+        if (parts.at(i).find("+es=") != string::npos) continue;
+        if (parts.at(i).find("+f=") != string::npos) continue;
+        if (parts.at(i).find("+rf=") != string::npos) continue;
         if (parts.at(i).find("+R=") != string::npos) continue;
         if (parts.at(i).find("+ellps=") != string::npos) continue;
         if (parts.at(i).find("+datum=") != string::npos) continue;
-- 
2.43.0


From 86c8bf16106b148cf944492f61cf18c14733e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:31 +0000
Subject: [PATCH 091/137] fix: equal projections compared as different
 depending on the order of parameters

---
 include/fimex/CDMNamedEntity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/CDMNamedEntity.h b/include/fimex/CDMNamedEntity.h
index 12e1ebc..1d197bf 100644
--- a/include/fimex/CDMNamedEntity.h
+++ b/include/fimex/CDMNamedEntity.h
@@ -49,7 +49,7 @@ public:
 struct CDMNameCompare
 {
 public:
-    int operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) {return e1.getName().compare(e2.getName());}
+    bool operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) const { return e1.getName() < e2.getName(); }
 };
 
 /**
-- 
2.43.0


From b3abe01f68aac2b02fe1c0a0c5b57ba66b782954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 092/137] fix: recognise atmosphere_ln_pressure_coordinate as a
 vertical axis

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..80e183a 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -157,6 +157,7 @@ static CoordinateAxis::AxisType getAxisTypeCF1_x(const CDM& cdm, const string& v
              lcSName == "grid_latitude" )
             return CoordinateAxis::GeoY;
         if ( lcSName == "atmosphere_sigma_coordinate" ||
+             lcSName == "atmosphere_ln_pressure_coordinate" ||
              lcSName == "atmosphere_hybrid_sigma_pressure_coordinate" ||
              lcSName == "atmosphere_hybrid_height_coordinate" ||
              lcSName == "atmosphere_sleve_coordinate" ||
-- 
2.43.0


From 25c2b98e9777e8303f102cd30eb4ead2a6d87c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 093/137] fix: WRF virtual variables of type int got float data
 and threw

---
 src/coordSys/WRFCoordSysBuilder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 2f221e1..7f6aed6 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -394,7 +394,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                     + refdatetime.at(1) + " +0000";
             cdm.addAttribute(reftime, CDMAttribute("units", refunits));
             cdm.addAttribute(reftime, CDMAttribute("standard_name", reftime));
-            auto refvals = make_shared_array<float>(1);
+            auto refvals = make_shared_array<int>(1);
             refvals[0] = 0;
             cdm.getVariable(reftime).setData(createData(1, refvals));
         }
@@ -437,7 +437,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                             vector<string> myshape(1, *dimIt);
                             cdm.addVariable(CDMVariable(*dimIt, CDM_INT, myshape));
                             size_t dimSize = cdm.getDimension(*dimIt).getLength();
-                            auto vals = make_shared_array<float>(dimSize);
+                            auto vals = make_shared_array<int>(dimSize);
                             for (size_t i = 0; i < dimSize; i++) {
                                 vals[i] = i;
                             }
-- 
2.43.0


From cdbae7d5e1f78b4f7137f6d397e8e8b718b7a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 094/137] fix: WRF times are read from Times when available

---
 src/coordSys/WRFCoordSysBuilder.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 7f6aed6..41e7b35 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -331,7 +331,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             string units;
             size_t dimSize = cdm.getDimension(Time).getLength();
             auto vals = make_shared_array<float>(dimSize);
-            if (reader) {
+            if (!reader || !cdm.hasVariable("Times")) {
                 // try to guess the time-steps
                 string start = cdm.getAttribute(cdm.globalAttributeNS(),
                         "START_DATE").getStringValue();
@@ -355,7 +355,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             } else {
                 // try to read the time from the data-reader TIMES-variable
                 // Times is usually given as 'YYYY-MM-DD_HH:MM:SS' in UTM as string
-                if (cdm.hasVariable("Times")) {
+                {
                     SliceBuilder sb(cdm, "Times");
                     size_t timeSize = cdm.getDimension("Time").getLength();
                     time_point ptFirst;
@@ -374,8 +374,6 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                         }
                         vals[i] = std::chrono::duration_cast<std::chrono::seconds>(pt - ptFirst).count() / 3600.0;
                     }
-                } else {
-                    LOG4FIMEX(logger, Logger::ERROR, "no 'Times' variable in WRF found, time-dimension will give wrong results");
                 }
 
             }
-- 
2.43.0


From b24955e22deb880d9b3847535327ef612581c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 095/137] fix: terms of ln-pressure levels were interchanged in
 the conversion to pressure

---
 src/coordSys/verticalTransform/LnPressure.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/LnPressure.cc b/src/coordSys/verticalTransform/LnPressure.cc
index 7e3fc2a..a75201f 100644
--- a/src/coordSys/verticalTransform/LnPressure.cc
+++ b/src/coordSys/verticalTransform/LnPressure.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p LnPressure::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<LnPressureToPressureConverter>(reader, cs, lev, p0);
+    return std::make_shared<LnPressureToPressureConverter>(reader, cs, p0, lev);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From cb4188c17ca87f90f9ce242d56f5a7f928304e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 096/137] fix: interpolation to axes in km used their values as
 m

---
 src/CDMInterpolator.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 81ab252..6163510 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -40,6 +40,8 @@
 #include "fimex/SpatialAxisSpec.h"
 #include "fimex/StringUtils.h"
 #include "fimex/Type2String.h"
+#include "fimex/Units.h"
+#include "fimex/UnitsConverter.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
@@ -119,6 +121,18 @@ bool unitIsDegree(const std::string& out_x_axis_unit, const std::string& out_y_a
     static const std::regex degree(".*degree.*");
     return std::regex_match(out_x_axis_unit, degree) || std::regex_match(out_y_axis_unit, degree);
 }
+
+/** axis values in the units of the projection library, i.e. other metric units like km converted to m */
+vector<double> axisInProjectionUnit(vector<double> axis, const std::string& unit)
+{
+    Units units;
+    if (units.areConvertible(unit, "m")) {
+        UnitsConverter_p uc = units.getConverter(unit, "m");
+        for (double& a : axis)
+            a = uc->convert(a);
+    }
+    return axis;
+}
 } // namespace
 
 CDMInterpolator::CDMInterpolator(CDMReader_p dataReader)
@@ -1220,6 +1234,9 @@ void CDMInterpolator::changeProjectionByForwardInterpolation(int method, const s
               out_x_axis_type, out_y_axis_type,
               getLongitudeName(), getLatitudeName());
 
+    const vector<double> xAxis = axisInProjectionUnit(out_x_axis, out_x_axis_unit);
+    const vector<double> yAxis = axisInProjectionUnit(out_y_axis, out_y_axis_unit);
+
     for (map<string, CoordinateSystem_cp>::iterator csIt = csMap.begin(); csIt != csMap.end(); ++csIt) {
         CoordinateSystem_cp cs = csIt->second;
         const CoordinateAxis_cp axis_lat = cs->findAxisOfType(CoordinateAxis::Lat);
@@ -1276,8 +1293,8 @@ void CDMInterpolator::changeProjectionByForwardInterpolation(int method, const s
 
         // translate the converted input-coordinates (lonvals and latvals) to cell-positions in output
         LOG4FIMEX(logger, Logger::DEBUG, "start calculating positions");
-        mifi_points2position(&orgLonVals[0], orgXYSize, &out_x_axis[0], out_x_axis.size(), miupXAxis);
-        mifi_points2position(&orgLatVals[0], orgXYSize, &out_y_axis[0], out_y_axis.size(), miupYAxis);
+        mifi_points2position(&orgLonVals[0], orgXYSize, &xAxis[0], xAxis.size(), miupXAxis);
+        mifi_points2position(&orgLatVals[0], orgXYSize, &yAxis[0], yAxis.size(), miupYAxis);
 
         // store the interpolation
         LOG4FIMEX(logger, Logger::DEBUG, "creating cached forward interpolation matrix " << orgXDimSize << "x" << orgYDimSize << " => " << out_x_axis.size() << "x" << out_y_axis.size());
@@ -1303,6 +1320,8 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
     // store projection changes to be used in data-section
     const std::regex degree(".*degree.*");
     const bool isDegree = std::regex_match(out_x_axis_unit, degree) || std::regex_match(out_y_axis_unit, degree);
+    const vector<double> xAxis = axisInProjectionUnit(out_x_axis, out_x_axis_unit);
+    const vector<double> yAxis = axisInProjectionUnit(out_y_axis, out_y_axis_unit);
 
     for (map<string, CoordinateSystem_cp>::iterator csIt = csMap.begin(); csIt != csMap.end(); ++csIt) {
         CoordinateSystem_cp cs = csIt->second;
@@ -1340,13 +1359,13 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
         const size_t fieldSize = out_x_axis.size() * out_y_axis.size();
         auto pointsOnXAxis = make_shared_array<double>(fieldSize);
         auto pointsOnYAxis = make_shared_array<double>(fieldSize);
-        reproject::reproject_axes(proj_input, LAT_LON_PROJSTR, &out_x_axis[0], &out_y_axis[0], out_x_axis.size(), out_y_axis.size(), &pointsOnXAxis[0],
+        reproject::reproject_axes(proj_input, LAT_LON_PROJSTR, &xAxis[0], &yAxis[0], xAxis.size(), yAxis.size(), &pointsOnXAxis[0],
                                   &pointsOnYAxis[0]);
         // here, pointOnX/YAxis is in degrees
         if (method == MIFI_INTERPOL_COORD_NN) {
             fastTranslatePointsToClosestInputCell(pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else if (method == MIFI_INTERPOL_COORD_NN_KD) {
-            double maxDistance = getMaxDistanceOfInterest(out_x_axis, out_y_axis);
+            double maxDistance = getMaxDistanceOfInterest(xAxis, yAxis);
             if (isDegree) {
                 maxDistance *= MIFI_EARTH_RADIUS_M;
             }
@@ -1379,6 +1398,8 @@ void CDMInterpolator::changeProjectionByProjectionParameters(int method, const s
     const bool outIsDegree = unitIsDegree(out_x_axis_unit, out_y_axis_unit);
     const int outXAxisType = outIsDegree ? MIFI_LONGITUDE : MIFI_PROJ_AXIS;
     const int outYAxisType = outIsDegree ? MIFI_LATITUDE : MIFI_PROJ_AXIS;
+    const vector<double> xAxis = axisInProjectionUnit(out_x_axis, out_x_axis_unit);
+    const vector<double> yAxis = axisInProjectionUnit(out_y_axis, out_y_axis_unit);
 
     for (map<string, CoordinateSystem_cp>::iterator csIt = csMap.begin(); csIt != csMap.end(); ++csIt) {
         CoordinateSystem_cp cs = csIt->second;
@@ -1399,7 +1420,7 @@ void CDMInterpolator::changeProjectionByProjectionParameters(int method, const s
         auto pointsOnXAxis = make_shared_array<double>(fieldSize);
         auto pointsOnYAxis = make_shared_array<double>(fieldSize);
         const std::string orgProjStr = cs->getProjection()->getProj4String();
-        reproject::reproject_axes(proj_input, orgProjStr, &out_x_axis[0], &out_y_axis[0], out_x_axis.size(), out_y_axis.size(), &pointsOnXAxis[0],
+        reproject::reproject_axes(proj_input, orgProjStr, &xAxis[0], &yAxis[0], xAxis.size(), yAxis.size(), &pointsOnXAxis[0],
                                   &pointsOnYAxis[0]);
         LOG4FIMEX(logger, Logger::DEBUG,
                   "mifi_project_axes: " << proj_input << "," << orgProjStr << "," << out_x_axis[0] << "," << out_y_axis[0] << " => " << pointsOnXAxis[0] << ","
@@ -1423,7 +1444,7 @@ void CDMInterpolator::changeProjectionByProjectionParameters(int method, const s
             LOG4FIMEX(logger, Logger::DEBUG,
                       "creating cached vector projection interpolation matrix " << orgXAxisSize << "x" << orgYAxisSize << " => " << out_x_axis.size() << "x"
                                                                                 << out_y_axis.size());
-            reproject::Matrix_cp matrix = reproject::get_vector_reproject_matrix(orgProjStr, proj_input, &out_x_axis[0], &out_y_axis[0], outXAxisType,
+            reproject::Matrix_cp matrix = reproject::get_vector_reproject_matrix(orgProjStr, proj_input, &xAxis[0], &yAxis[0], outXAxisType,
                                                                                  outYAxisType, out_x_axis.size(), out_y_axis.size());
             LOG4FIMEX(logger, Logger::DEBUG, "creating vector reprojection");
             p_->cachedVectorReprojection[csIt->first] = std::make_shared<CachedVectorReprojection>(matrix);
-- 
2.43.0


From 36b8a93d966140b23aa603d860ac1e2434142fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 097/137] fix: bounding box of square grids with 1d axes used
 only their diagonal

---
 src/CDMInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 6163510..59233a6 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -396,7 +396,7 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
         auto latVals = latData->asDouble();
         size_t latSize = latData->size();
         size_t lonSize = lonData->size();
-        if (latSize != lonSize) {
+        if (latSize != lonSize || latAxis->getShape() != lonAxis->getShape()) {
             // latData/lonData are not 2d-coordinate-variable, but 1d axes
             // making latVals/lonVals 2d with size latSize*lonSize
             lonLatVals2Matrix(lonVals, latVals, lonSize, latSize);
-- 
2.43.0


From a90d5d1016bb2da5624d584aa56fb9442a4664cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 098/137] fix: reject templates whose latitude or longitude do
 not match the grid

---
 src/CDMInterpolator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 59233a6..66463ff 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1623,6 +1623,10 @@ void CDMInterpolator::changeProjectionByProjectionParametersToLatLonTemplate(int
                                                                              DataPtr tmplLatVals,
                                                                              DataPtr tmplLonVals)
 {
+    const size_t outSize = out_x_axis.size() * out_y_axis.size();
+    if (tmplLatVals->size() != outSize || tmplLonVals->size() != outSize)
+        throw CDMException("template needs one latitude and one longitude for each grid cell");
+
     map<string, CoordinateSystem_cp> csMap = findBestCoordinateSystemsAndProjectionVars(true);
 
     map<string, CSGridDefinition> orgGrids;
@@ -1657,8 +1661,6 @@ void CDMInterpolator::changeProjectionByProjectionParametersToLatLonTemplate(int
                               tmplLatVals,
                               tmplLonVals);
 
-    assert(tmplLatVals->size() == tmplLonVals->size());
-
     auto lat_deg = tmplLatVals->asDouble();
     auto lon_deg = tmplLonVals->asDouble();
 
@@ -1706,7 +1708,6 @@ void CDMInterpolator::changeProjectionByProjectionParametersToLatLonTemplate(int
         if (hasXYSpatialVectors()) {
             // std::string orgUnit = csi.second->getProjection()->isDegree() ? "rad" : "m";
             LOG4FIMEX(logger, Logger::DEBUG, "creating cached vector projection interpolation matrix");
-            const size_t outSize = tmplLatVals->size();
             // prepare interpolation of vectors
             reproject::Matrix_cp matrix =
                 reproject::get_vector_reproject_matrix_points(orgProjStr, LAT_LON_PROJSTR, csp->isDegree() ? 0 : 1, &lon_deg[0], &lat_deg[0], outSize, 1);
-- 
2.43.0


From 9b90b07190f0c38f6b06600b90182e1cf59327a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 099/137] fix: center of WRF grids is given in degrees to the
 projection

---
 src/coordSys/WRFCoordSysBuilder.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 41e7b35..e8c9196 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -158,14 +158,9 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
     proj4 << " +R=" << R0 << " +no_defs";
     //cerr << proj4.str() << endl;
     Projection_p proj = Projection::createByProj4(proj4.str());
-    double centerX = deg_to_rad(centralLon);
-    double centerY = deg_to_rad(centralLat);
+    double centerX = centralLon;
+    double centerY = centralLat;
     reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, proj4.str(), &centerX, &centerY, 1);
-    if (isLatLon) {
-        centerX = rad_to_deg(centerX);
-        centerY = rad_to_deg(centerY);
-    }
-
     // TODO: the following variables might be called uninitialized when the coordinate-system
     //       is build twice
 
-- 
2.43.0


From c50227eb7a8a17eabb7b4f9e0cc4508f9eeb7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 100/137] fix: distance of interest on degree axes was taken as
 radian

---
 src/CDMInterpolator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 66463ff..eab6347 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1366,8 +1366,8 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
             fastTranslatePointsToClosestInputCell(pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else if (method == MIFI_INTERPOL_COORD_NN_KD) {
             double maxDistance = getMaxDistanceOfInterest(xAxis, yAxis);
-            if (isDegree) {
-                maxDistance *= MIFI_EARTH_RADIUS_M;
+            if (isDegree && !(p_->maxDistance > 0)) { // otherwise set in m
+                maxDistance = deg_to_rad(maxDistance) * MIFI_EARTH_RADIUS_M;
             }
             flannTranslatePointsToClosestInputCell(maxDistance, pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else {
-- 
2.43.0


From fd0160c440a1e564f345582b53d5bed9f1176874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 101/137] fix: bounding box in rotated projections is already
 in degree

---
 src/CDMInterpolator.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index eab6347..1ff61b4 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -411,12 +411,6 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
             double yMin = *(min_element(&latVals[0], &latVals[latSize]));
             double xMax = *(max_element(&lonVals[0], &lonVals[latSize]));
             double yMax = *(max_element(&latVals[0], &latVals[latSize]));
-            if (getProjectionName(proj_input) == "ob_tran") {
-                xMin = rad_to_deg(xMin);
-                yMin = rad_to_deg(yMin);
-                xMax = rad_to_deg(xMax);
-                yMax = rad_to_deg(yMax);
-            }
             xAxisSpec.setStartEnd(xMin, xMax);
             yAxisSpec.setStartEnd(yMin, yMax);
             LOG4FIMEX(logger, Logger::INFO, "changeProjection, boundingbox: (" <<  xMin << "," << yMin << "), (" << xMax << "," << yMax << ")");
-- 
2.43.0


From 63f375787071317309e5e75ec91011dd2bf96a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 102/137] fix: generated projection coordinates ignored the
 units of the axes

---
 src/CDM.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index c41aa35..21d47af 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -28,6 +28,7 @@
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
 #include "fimex/Units.h"
+#include "fimex/UnitsConverter.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
 #include "fimex/interpolation.h"
@@ -667,6 +668,21 @@ void CDM::generateProjectionCoordinates(const std::string& projectionVariable, c
     generateProjectionCoordinates(Projection::create(getAttributes(projectionVariable)), xDim, yDim, lonDim, latDim);
 }
 
+namespace {
+//! convert axis values in other metric units to m
+void axisToMeter(const std::string& unit, shared_array<double>& values, size_t size)
+{
+    Units units;
+    if (!units.areConvertible(unit, "m"))
+        return;
+    UnitsConverter_p uc = units.getConverter(unit, "m");
+    auto converted = make_shared_array<double>(size);
+    for (size_t i = 0; i < size; ++i)
+        converted[i] = uc->convert(values[i]);
+    values = converted;
+}
+} // namespace
+
 void CDM::generateProjectionCoordinates(Projection_cp projection, const std::string& xDim, const std::string& yDim, const std::string& lonDim,
                                         const std::string& latDim)
 {
@@ -680,6 +696,8 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     size_t yDimLength = getDimension(yDim).getLength();
     assert(xDimLength == xVar.getData()->size());
     assert(yDimLength == yVar.getData()->size());
+    axisToMeter(getUnits(xDim), xData, xDimLength);
+    axisToMeter(getUnits(yDim), yData, yDimLength);
     size_t fieldSize = xDimLength * yDimLength;
     auto longVal = make_shared_array<double>(fieldSize);
     auto latVal = make_shared_array<double>(fieldSize);
-- 
2.43.0


From 3413d022ddd4b044217e38ac486dd6e027ecc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:55 +0000
Subject: [PATCH 103/137] fix: rotation of vectors and directions on rotated
 grids took degrees as radian

---
 src/CDMProcessor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index e447a74..1fff1e2 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -125,8 +125,8 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     DataPtr xAxisData;
     DataPtr yAxisData;
     if (cs->getProjection()->isDegree()) {
-        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "radian");
-        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "radian");
+        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "degree");
+        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "degree");
     } else {
         xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "m");
         yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "m");
@@ -151,7 +151,7 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
         matrix = reproject::get_vector_reproject_matrix_field(cs->getProjection()->getProj4String(), MIFI_WGS84_LATLON_PROJ4, &inXField[0], &inYField[0],
                                                               xAxisSize, yAxisSize);
     } else {
-        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in radian
+        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in degree
         matrix = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, cs->getProjection()->getProj4String(), &xAxisD[0], &yAxisD[0], MIFI_PROJ_AXIS,
                                                         MIFI_PROJ_AXIS, xAxisSize, yAxisSize);
     }
-- 
2.43.0


From 41e6d35ea3a40be8dfa4a4ddb75b06929170aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:55 +0000
Subject: [PATCH 104/137] fix: rotated vectors wrong by 180 degree if stepping
 against an axis of the new projection

---
 src/reproject.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 9d89e65..d4d5e50 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -29,6 +29,7 @@
 #include "fimex/interpolation.h"
 
 #include <algorithm>
+#include <cmath>
 #include <memory>
 #include <sstream>
 
@@ -348,8 +349,8 @@ Matrix_cp get_vector_reproject_matrix_points_proj_delta(crs2crs& c2c, const doub
         for (size_t i = 0, idx = 0; i < count; ++i, idx += Matrix::stride) {
             const double phi_x = mtx[idx + 0];
             const double phi_y = -atan2(out_x_delta_proj_axis[i] - out_x_field[i], out_y_delta_proj_axis[i] - out_y_field[i]) + add_y;
-            // average, for non-conformal cases
-            const double phi0 = (phi_y + phi_x) / 2;
+            // average, for non-conformal cases; phi_x and phi_y might differ by a full turn
+            const double phi0 = phi_x + std::remainder(phi_y - phi_x, 2 * MIFI_PI) / 2;
             store_rotation(mtx, idx, phi0);
         }
     }
-- 
2.43.0


From 32793c964aa94123aa441675e249518eef84f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:55 +0000
Subject: [PATCH 105/137] fix: rotation of packed vectors ignored scale_factor
 and add_offset

---
 src/CDMProcessor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 1fff1e2..a6a41f1 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -718,7 +718,14 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         if (xData->size() != yData->size()) {
             throw CDMException("xData != yData in vectorInterpolation");
         }
+        double xScale = 1, xOffset = 0, yScale = 1, yOffset = 0;
+        getScaleAndOffsetOf(xVar, xScale, xOffset);
+        getScaleAndOffsetOf(yVar, yScale, yOffset);
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], ScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], ScaleOffset<float>(yScale, yOffset));
         cvr->reprojectValues(xArray, yArray, xData->size());
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], UnScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], UnScaleOffset<float>(yScale, yOffset));
         CDMDataType type = getCDM().getVariable(varName).getDataType();
         if (xIsFirst) {
             data = interpolationArray2Data(type, xArray, xData->size(), getCDM().getFillValue(xVar));
-- 
2.43.0


From 56f43e3f769ca6d8ab5530072806113128b430c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:55 +0000
Subject: [PATCH 106/137] fix: vertical velocity used the surface geopotential
 multiplied by gravity as height

---
 src/CDMProcessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index a6a41f1..61245a5 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -306,7 +306,7 @@ void CDMProcessor::addVerticalVelocity()
                         if (stdName == "surface_altitude" || stdName == "altitude" || stdName == "geopotential_height") {
                             gpUnit = "m";
                         } else {
-                            gpUnit = "1/9.81*m^2/s^2"; // division of gepotential by gravity
+                            gpUnit = "9.81*m^2/s^2"; // division of geopotential by gravity
                         }
                         DataPtr gpd;
                         try {
-- 
2.43.0


From 88cbb19da4fda7525b52ddfcb7bfca07c495ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:31 +0000
Subject: [PATCH 107/137] fix: rotating vectors to and from latitude/longitude
 in one CDMProcessor used the same rotation

---
 src/CDMProcessor.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 61245a5..26d80f5 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -102,7 +102,7 @@ struct CDMProcessor::CDMProcessorImpl
     map<string, string> rotateLatLonDirection;
     // variable -> <counterPart, horizontalId> (same as above but with Y as first component)
     map<string, pair<string, string> > rotateLatLonVectorY;
-    // horizontalId -> cachedVectorReprojection
+    // horizontalId and direction -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
     OmpMutex sliceCacheMutex; // several threads might read at once
@@ -159,6 +159,12 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     return std::make_shared<CachedVectorReprojection>(matrix);
 }
 
+// key of the cached rotation; each direction needs its own
+static std::string rotationId(const std::string& csId, bool toLatLon)
+{
+    return (toLatLon ? "tolatlon_" : "fromlatlon_") + csId;
+}
+
 CDMProcessor::CDMProcessor(CDMReader_p dataReader)
 : p_(new CDMProcessorImpl())
 {
@@ -476,16 +482,17 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         if (csXId != csYId)
             throw CDMException(varNameX[i] + " belongs to different horizontal CS than " + varNameY[i] + ": " + csXId + " != " +csYId);
 
-        if (p_->cachedVectorReprojection.find(csXId) == p_->cachedVectorReprojection.end()) {
+        const string rotId = rotationId(csXId, toLatLon);
+        if (p_->cachedVectorReprojection.find(rotId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csXId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csXId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[rotId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
         // data in memory are not processed
         cdm_->getVariable(varNameX[i]).setData(nullptr);
         cdm_->getVariable(varNameY[i]).setData(nullptr);
-        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
-        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
+        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], rotId);
+        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], rotId);
     }
 }
 
@@ -507,13 +514,14 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
             throw CDMException(varNames[i] + " not rotatable since it does not belong to a horizontal projection");
 
         const string& csId = projectionVariables[varNames[i]];
-        p_->rotateLatLonDirection[varNames[i]] = csId;
+        const string rotId = rotationId(csId, toLatLon);
+        p_->rotateLatLonDirection[varNames[i]] = rotId;
         cdm_->getVariable(varNames[i]).setData(nullptr); // data in memory are not processed
 
-        if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
+        if (p_->cachedVectorReprojection.find(rotId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[rotId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
     }
 }
-- 
2.43.0


From aae81c4ace684b25b775384a758617c650479aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 108/137] fix: mifi_set_callback_double crashed when used with
 another reader

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..9731b2d 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From 5d17f5bbdea317f3873c6050d40d72206b9aa912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 109/137] fix: c-callbacks modified the data of the source, and
 were ignored for data in memory

---
 src/C_CDMReader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..bd6f41e 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -30,9 +30,11 @@
 #include "fimex/CDMException.h"
 #include "fimex/CDMVariable.h"
 #include "fimex/Data.h"
+#include "fimex/SharedArray.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
 
+#include <algorithm>
 #include <cassert>
 
 namespace MetNoFimex
@@ -52,6 +54,7 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
 {
     CDMVariable& var = cdm_->getVariable(varName);
     var.setDataType(CDM_DOUBLE);
+    var.setData(nullptr); // data in memory are not modified by the callback
     // remove scale_factor and add_offset attributes
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
@@ -84,8 +87,10 @@ DataPtr C_CDMReader::getDataSlice(const std::string & varName, size_t unLimDimPo
 
     // wrap the object as a mifi_cdm_reader for C-usage
     mifi_cdm_reader reader(std::shared_ptr<C_CDMReader>(this, noDealloc));
-    // get a C-array to the scaled data
-    auto doubleArray = data->asDouble();
+    // get a C-array with a copy of the scaled data, asDouble might give the memory of the source
+    auto scaledArray = data->asDouble();
+    auto doubleArray = make_shared_array<double>(data->size());
+    std::copy(&scaledArray[0], &scaledArray[0] + data->size(), &doubleArray[0]);
     // call the callback-function
     int retVal = (*callback)(&reader, varName.c_str(), unLimDimPos, &doubleArray[0], data->size());
     if (retVal != 0) {
-- 
2.43.0


From 3135017d35ee5437137e9dfb8d054cc79756d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 110/137] fix: errors in slicebuilder functions of the C
 interface escaped as exceptions

---
 src/c_fimex.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 9731b2d..91a4572 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -353,7 +353,10 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const vector<string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && static_cast<size_t>(pos) < names.size())
+            return names[pos];
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_dimname: no dimension " << pos);
     }
     return "";
 }
@@ -424,8 +427,12 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
-- 
2.43.0


From fef627b95cc098491d0793943ed9ae5bbd35818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 111/137] fix: names of unknown variables and dimensions are ""
 as documented, not NULL

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 91a4572..0f3d771 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -218,7 +218,7 @@ const char* mifi_get_variable_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_variable_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 unsigned int mifi_get_variable_type(mifi_cdm_reader* reader, const char* varName)
@@ -250,7 +250,7 @@ const char* mifi_get_dimension_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_dimension_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 size_t mifi_get_dimension_size(mifi_cdm_reader* reader, const char* dimName)
-- 
2.43.0


From f7b4c8fd9727342a72fe5bba8ce54818cd892723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 112/137] fix: missing longitude/latitude variables are
 reported as documented

---
 src/c_fimex.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 0f3d771..c99996c 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -287,12 +287,14 @@ static std::string do_mifi_get_var_longitude(mifi_cdm_reader* reader, const char
 char* mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_longitude(reader, varName));
+    const std::string name = do_mifi_get_var_longitude(reader, varName);
+    return name.empty() ? 0 : string_dup(name);
 }
 
 int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, char* lonName, int n)
 {
-    return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
+    const std::string name = do_mifi_get_var_longitude(reader, varName);
+    return name.empty() ? -1 : string_cpy(name, lonName, n);
 }
 
 static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
@@ -307,12 +309,14 @@ static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char*
 char* mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_latitude(reader, varName));
+    const std::string name = do_mifi_get_var_latitude(reader, varName);
+    return name.empty() ? 0 : string_dup(name);
 }
 
 int mifi_get_var_latitude_cpy(mifi_cdm_reader* reader, const char* varName, char* latName, int n)
 {
-    return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    const std::string name = do_mifi_get_var_latitude(reader, varName);
+    return name.empty() ? -1 : string_cpy(name, latName, n);
 }
 
 mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* varName)
-- 
2.43.0


From f0dab69e5054cfb2d68ec4f238e6d7d326b2d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 113/137] fix: writing without units through the C interface
 tried to convert units

---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index c99996c..d326972 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -523,7 +523,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        const string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From 807de86e813c0bd9ee5ee73a1c50e9ffe595a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 114/137] fix: slicebuilders of the C interface had the
 dimensions of another variable of the coordinate system

---
 include/fimex/CoordinateSystemSliceBuilder.h | 6 ++++++
 src/CoordinateSystemSliceBuilder.cc          | 7 ++++++-
 src/c_fimex.cc                               | 2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..0e6cb85 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -45,6 +45,12 @@ class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+    /**
+     * @param cdm the data's model
+     * @param cs the coordinate-system of the variable
+     * @param varName the variable to slice, giving the order of the dimensions
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName);
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..0f174c5 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -52,7 +52,12 @@ const std::string& getCSVarFromCDM_(const CDM& cdm, CoordinateSystem_cp cs)
 }
 
 CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs)
-    : SliceBuilder(cdm, getCSVarFromCDM_(cdm, cs))
+    : CoordinateSystemSliceBuilder(cdm, cs, getCSVarFromCDM_(cdm, cs))
+{
+}
+
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName)
+    : SliceBuilder(cdm, varName)
     , cs_(cs)
 {
     setReferenceTimePos(0); // referenceTime is allways set
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index d326972..2f434e2 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -324,7 +324,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs, varName));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From 89160bee7f2a3eb0b88f842e12ac4df3efd523e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:55 +0000
Subject: [PATCH 115/137] fix: packed variables with a fill value could not be
 read through a c-callback

---
 src/C_CDMReader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index bd6f41e..7204a10 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -33,6 +33,7 @@
 #include "fimex/SharedArray.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
+#include "fimex/mifi_constants.h"
 
 #include <algorithm>
 #include <cassert>
@@ -59,6 +60,10 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // undefined data are NaN after scaling
+    CDMAttribute fillAttr;
+    if (cdm_->getAttribute(varName, "_FillValue", fillAttr))
+        cdm_->addOrReplaceAttribute(varName, CDMAttribute("_FillValue", MIFI_UNDEFINED_D));
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
-- 
2.43.0


From e0ead79b1d2011fb24f95ba7fc9160ec1660687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:08 +0000
Subject: [PATCH 116/137] fix: the options qualityExtract.autoConfString and
 qualityExtract2.autoConfString were ignored

---
 src/binSrc/fimex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binSrc/fimex.cc b/src/binSrc/fimex.cc
index 2cef42a..bc18d15 100644
--- a/src/binSrc/fimex.cc
+++ b/src/binSrc/fimex.cc
@@ -580,7 +580,7 @@ CDMReader_p getCDMExtractor(const po::value_set& vm, CDMReader_p dataReader)
 
 CDMReader_p getCDMQualityExtractor(const string& version, const po::value_set& vm, CDMReader_p dataReader)
 {
-    const string io = "qualityExtract"+version, autoConfKey = io +".autoConfigString";
+    const string io = "qualityExtract"+version, autoConfKey = io + ".autoConfString";
     string autoConf;
     if (po::option_cx opt = vm.find(autoConfKey))
         autoConf = vm.value(opt);
-- 
2.43.0


From d9d7b551c926ec2d4b881e60c59e3e7c3576aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:08 +0000
Subject: [PATCH 117/137] fix: the option extract.reduceTime.end was ignored
 without extract.reduceTime.start

---
 src/binSrc/fimex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binSrc/fimex.cc b/src/binSrc/fimex.cc
index bc18d15..4370565 100644
--- a/src/binSrc/fimex.cc
+++ b/src/binSrc/fimex.cc
@@ -479,7 +479,7 @@ CDMReader_p getCDMProcessor(const po::value_set& vm, CDMReader_p dataReader)
 CDMReader_p getCDMExtractor(const po::value_set& vm, CDMReader_p dataReader)
 {
     if (!(vm.is_set(op_extract_reduceDimension_name) || vm.is_set(op_extract_pickDimension_name) || vm.is_set(op_extract_removeVariable) ||
-          vm.is_set(op_extract_selectVariables) || vm.is_set(op_extract_reduceTime_start) || vm.is_set(op_extract_reduceTime_start) ||
+          vm.is_set(op_extract_selectVariables) || vm.is_set(op_extract_reduceTime_start) || vm.is_set(op_extract_reduceTime_end) ||
           vm.is_set(op_extract_reduceVerticalAxis_unit) || vm.is_set(op_extract_reduceToBoundingBox_south) || vm.is_set(op_extract_reduceToBoundingBox_north) ||
           vm.is_set(op_extract_reduceToBoundingBox_west) || vm.is_set(op_extract_reduceToBoundingBox_east))) {
         LOG4FIMEX(logger, Logger::DEBUG, "extract.reduceDimension.name and extract.removeVariable not found, no extraction used");
-- 
2.43.0


From 337f0d82cdb6e9464ac11d6b03f24fac718929f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:37 +0000
Subject: [PATCH 118/137] fix: the options process.printNcML, process.printCS
 and process.printSize were ignored

---
 src/binSrc/fimex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binSrc/fimex.cc b/src/binSrc/fimex.cc
index 4370565..d440f73 100644
--- a/src/binSrc/fimex.cc
+++ b/src/binSrc/fimex.cc
@@ -473,6 +473,7 @@ CDMReader_p getCDMProcessor(const po::value_set& vm, CDMReader_p dataReader)
     if (vm.is_set(op_process_addGeopotentialHeight)) {
         processor->addGeopotentialHeight();
     }
+    printReaderStatements("process", vm, processor);
     return processor;
 }
 
-- 
2.43.0


From 7ab0f02505284ccab493e3f410ede14cde4159e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 119/137] fix: numbers written as text did not always read back
 as the same number

---
 src/Type2String.cc | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Type2String.cc b/src/Type2String.cc
index db7a18b..07e8bba 100644
--- a/src/Type2String.cc
+++ b/src/Type2String.cc
@@ -31,27 +31,45 @@
 
 #include "fimex/Type2String.h"
 
+#include <cmath>
 #include <iomanip>
 #include <limits>
 
 namespace MetNoFimex {
 
-template <>
-std::ostream& type2stream<double>(std::ostream& out, double in)
+namespace {
+
+template <typename T>
+std::ostream& floating2stream(std::ostream& out, T in)
 {
     std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<double>::digits10 + 1) << in;
-    out << buffer.str();
+    buffer << std::setprecision(std::numeric_limits<T>::digits10 + 1) << in;
+    std::string text = buffer.str();
+
+    // use all digits when those are not sufficient to read back the same number
+    T back;
+    std::istringstream check(text);
+    if (std::isfinite(in) && (!(check >> back) || back != in)) {
+        std::ostringstream all_digits;
+        all_digits << std::setprecision(std::numeric_limits<T>::max_digits10) << in;
+        text = all_digits.str();
+    }
+    out << text;
     return out;
 }
 
+} // namespace
+
+template <>
+std::ostream& type2stream<double>(std::ostream& out, double in)
+{
+    return floating2stream(out, in);
+}
+
 template <>
 std::ostream& type2stream<float>(std::ostream& out, float in)
 {
-    std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<float>::digits10 + 1) << in;
-    out << buffer.str();
-    return out;
+    return floating2stream(out, in);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 2cae3d51ce1c62382900b4284fb79ba2df0c228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 120/137] fix: the _Unsigned attribute of variables in ncml had
 no effect

---
 src/NcmlCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6ea6ab8..1879272 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -243,7 +243,7 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
         bool att_unsigned = false;
         if (nodes_att_unsigned.size() == 1) {
             std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-- 
2.43.0


From 5eeeaf2bd1f537b71492f45c07fb4118fdff70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 121/137] fix: texts in values and shapes of written ncml were
 not escaped, line breaks and tabs in attributes were lost

---
 src/NcmlCDMWriter.cc | 7 +++++--
 src/XMLUtils.cc      | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..f161e02 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -48,7 +48,7 @@ void shapeToXMLStream(std::ostream& out, const std::vector<std::string>& fimex_s
         return;
 
     // ncml shape is slowest varying dimension first, fimex shape is fastest varying dimension first
-    out << " shape=\"" << join(fimex_shape.rbegin(), fimex_shape.rend(), " ") << "\"";
+    out << " shape=\"" << escapeXml(join(fimex_shape.rbegin(), fimex_shape.rend(), " ")) << "\"";
 }
 
 std::string findStringsSeparator(DataPtr data)
@@ -144,7 +144,10 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
                 if (unLimDimPos > 0)
                     out << separator;
                 if (data && data->size() > 0) {
-                    data->toStream(out, separator);
+                    if (data->getDataType() == CDM_STRING || data->getDataType() == CDM_STRINGS)
+                        out << escapeXml(data->asString(separator));
+                    else
+                        data->toStream(out, separator);
                 } else if (dataSize > 0) {
                     std::ostringstream fill;
                     createData(var.getDataType(), 1, cdm.getFillValue(var.getName()))->toStream(fill);
diff --git a/src/XMLUtils.cc b/src/XMLUtils.cc
index 29de8d3..8de21b6 100644
--- a/src/XMLUtils.cc
+++ b/src/XMLUtils.cc
@@ -135,7 +135,7 @@ XMLInputDoc createXMLInput(const std::string& configXML)
 namespace {
 bool needsXmlEscape(const std::string& input)
 {
-    return input.find_first_of("&<>\"'") != std::string::npos;
+    return input.find_first_of("&<>\"'\t\n\r") != std::string::npos;
 }
 } // namespace
 
@@ -170,6 +170,11 @@ void escapeXmlToStream(std::ostream& output, const std::string& input)
             case '\'':
                 output << "&apos;";
                 break;
+            case '\t':
+            case '\n':
+            case '\r': // would become spaces in attributes
+                output << "&#" << static_cast<int>(c) << ';';
+                break;
             default:
                 output.put(c); // Write the character directly to the stream
                 break;
-- 
2.43.0


From 9ddbc3d51e99726ba90b226e18926e62b74e7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 122/137] fix: lists of texts in written ncml attributes were
 split at other places when reading

---
 src/NcmlCDMWriter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index f161e02..441b13a 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -60,8 +60,10 @@ std::string findStringsSeparator(DataPtr data)
     size_t isep = 0;
     for (; isep < n_separators; ++isep) {
         bool present = false;
+        const bool is_default = (isep == 0); // not written, and readers split at any of " ,\t\r\n" then
         for (size_t i = 0; i < n_strings; ++i) {
-            if (strings[i].find(separators[isep]) != std::string::npos) {
+            if (strings[i].find(separators[isep]) != std::string::npos ||
+                (is_default && (strings[i].empty() || strings[i].find_first_of(",\t\r\n") != std::string::npos))) {
                 // separator candidate found, we cannot use it, try next
                 present = true;
                 break;
-- 
2.43.0


From db1b1785f436a5c7c9dd3397e327233f4c5f5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 123/137] fix: text variables written as ncml could not be
 read, or lost their spaces

---
 src/NcmlCDMReader.cc | 2 ++
 src/NcmlCDMWriter.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 1879272..bd92c13 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -306,6 +306,8 @@ void NcmlCDMReader::initVariableDataChange()
                     array[i] = array[0] + i * step;
                 }
                 var.setData(convertValues(*createData(dataSize, array), var.getDataType()));
+            } else if (var.getDataType() == CDM_STRING && values_content.size() == dataSize) {
+                var.setData(createData(values_content)); // text, not a list
             } else {
                 const auto values_list = split_ncml_values(values_content, getXmlProp(node, "separator"));
 
diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 441b13a..a41097c 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -131,6 +131,8 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
             if (var.getDataType() == CDM_STRINGS) {
                 separator = "---NEXT-NCML-STRING---";
                 out << " separator=\"" << separator << "\" ";
+            } else if (var.getDataType() == CDM_STRING) {
+                separator.clear(); // the text as it is
             }
             out << ">";
             const bool has_unlimited = cdm.hasUnlimitedDim(var);
-- 
2.43.0


From 27eda8723d9aa3cb41daf5282e7fb2212a9b06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 124/137] fix: unsigned attributes lost their type when written
 as ncml, large values could not be read

---
 src/NcmlCDMReader.cc | 2 +-
 src/NcmlCDMWriter.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index bd92c13..8503646 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -358,7 +358,7 @@ CDMAttribute createAttributeFromXML(const xmlNodePtr node, const std::string& va
         // default attribute type is "string"
         type = "string";
     }
-    const CDMDataType datatype = datatype_ncml2cdm(type, false);
+    const CDMDataType datatype = datatype_ncml2cdm(type, getXmlProp(node, "isUnsigned") == "true");
     if (datatype == CDM_NAT)
         throw CDMException("cannot create att name='" + name + "' with type '" + type + "'");
 
diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index a41097c..acb092e 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -190,6 +190,9 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
+    if (dt.is_unsigned) {
+        out << " isUnsigned=\"true\"";
+    }
     if (separator != " ") {
         out << " separator=\"" << separator << "\"";
     }
-- 
2.43.0


From 107e5163559131cd7498b681bbd8254745cf0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:33 +0000
Subject: [PATCH 125/137] fix: empty text attributes were lost when reading
 ncml

---
 src/NcmlCDMReader.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 8503646..ac7c211 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -339,6 +339,17 @@ void NcmlCDMReader::initVariableSpatialVector()
 }
 
 namespace {
+/** true for attributes with a value, also for empty texts */
+bool hasAttributeValue(const xmlNodePtr node, const std::string& value)
+{
+    if (!value.empty())
+        return true;
+    if (!xmlHasProp(node, reinterpret_cast<const xmlChar*>("value")))
+        return false;
+    const CDMDataType type = datatype_ncml2cdm(getXmlProp(node, "type"), false);
+    return type == CDM_STRING || type == CDM_STRINGS;
+}
+
 std::string getAttributeValue(const xmlNodePtr node)
 {
     std::string value = getXmlProp(node, "value");
@@ -379,7 +390,7 @@ void NcmlCDMReader::initAddReassignAttribute()
     // see https://docs.unidata.ucar.edu/netcdf-java/current/userguide/annotated_ncml_schema.html#attribute-element
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:attribute")) {
         const std::string value = getAttributeValue(node);
-        if (value.empty())
+        if (!hasAttributeValue(node, value))
             continue;
 
         const CDMAttribute att = createAttributeFromXML(node, value);
@@ -393,7 +404,7 @@ void NcmlCDMReader::initAddReassignAttribute()
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable/nc:attribute")) {
         const std::string varName = getXmlProp(node->parent, "name");
         const std::string value = getAttributeValue(node);
-        if (value.empty())
+        if (!hasAttributeValue(node, value))
             continue;
         const CDMAttribute att = createAttributeFromXML(node, value);
         cdm_->removeAttribute(varName, att.getName());
-- 
2.43.0


From 1ade34c68fc1b72aa7ab13104d92d78a1d30822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 126/137] fix: reading some levels or members of several times
 of a grib file wrote outside of the data

---
 src/io/grib/GribCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 4fea314..1cfb1dd 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -247,7 +247,7 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
                 }
 
                 const size_t idx_data =
-                    ((idx_t - dim_t_start) * dim_l_len * dim_e_len + (idx_l - dim_l_start) * dim_e_len + (idx_e - dim_e_start)) * xySliceSize;
+                    (((idx_t - dim_t_start) * (dim_l_end - dim_l_start) + (idx_l - dim_l_start)) * (dim_e_end - dim_e_start) + (idx_e - dim_e_start)) * xySliceSize;
                 double* data_out = &doubleArray[idx_data];
                 double* grib_out = xyslice ? full_data_array.get() : data_out;
                 size_t dataRead;
-- 
2.43.0


From b57fd07982aa176f7fc22e8f82072ea6c6d3e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 127/137] fix: steps of grib messages in days, months or years
 were added as an undefined offset

---
 src/io/grib/GribFileIndex.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..988f295 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -952,12 +952,12 @@ FimexTime GribFileMessage::getValidTime() const
     case 10: timeOffset = std::chrono::hours(3 * stepEnd_); break;
     case 11: timeOffset = std::chrono::hours(6 * stepEnd_); break;
     case 12: timeOffset = std::chrono::hours(12  *stepEnd_); break;
-    case 2:  date::days(1 * stepEnd_); break;
-    case 3:  date::months(1 * stepEnd_); break;
-    case 4:  date::years(1 * stepEnd_); break;
-    case 5:  date::years(10 * stepEnd_); break;
-    case 6:  date::years(30 * stepEnd_); break;
-    case 7:  date::years(100 * stepEnd_); break;
+    case 2:  timeOffset = date::days(1 * stepEnd_); break;
+    case 3:  timeOffset = date::months(1 * stepEnd_); break;
+    case 4:  timeOffset = date::years(1 * stepEnd_); break;
+    case 5:  timeOffset = date::years(10 * stepEnd_); break;
+    case 6:  timeOffset = date::years(30 * stepEnd_); break;
+    case 7:  timeOffset = date::years(100 * stepEnd_); break;
     default: {
         std::ostringstream msg;
         msg << "unknown stepUnits value " << stepUnits_;
-- 
2.43.0


From 9865778e8a6e065b62e43c56b64148038e9e6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 128/137] fix: grib files with constantTime parameters could
 not be read

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 62d88e0..cbecbb4 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -732,7 +732,7 @@ void GribCDMIndexer::initCreateVarMessages(std::shared_ptr<CDM> cdm, std::shared
         msgs = grib_index_v(size_msgs, invalid_msg);
         const auto& box_time_lev_ens = gm.second;
         for (const auto& items_time_lev_ens : box_time_lev_ens) {
-            const size_t idx_t = find_index(init_->times, items_time_lev_ens.first);
+            const size_t idx_t = init_->varHas.at(varName).has_time ? find_index(init_->times, items_time_lev_ens.first) : 0;
 
             const auto& box_lev_ens = items_time_lev_ens.second;
             for (const auto& items_lev_ens : box_lev_ens) {
-- 
2.43.0


From 195b57c0da338c2687e16cc598fb337f91c19969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 129/137] fix: increments of rotated grib grids without given
 increments were too small

---
 src/io/grib/GribFileIndex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 988f295..57aae39 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -305,8 +305,8 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
         double endX, endY;
         grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
         grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-        incrX = (endX - startX) / sizeX;
-        incrY = (endY - startY) / sizeY;
+        incrX = (endX - startX) / (sizeX - 1);
+        incrY = (endY - startY) / (sizeY - 1);
     } else {
         grib_get(gh, "iDirectionIncrementInDegrees", incrX);
         grib_get(gh, "jDirectionIncrementInDegrees", incrY);
-- 
2.43.0


From 5ff5dfc951cd2c3dca9e06f45c876dfdb3585197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 130/137] fix: the scanning direction of metric grib grids was
 ignored

---
 src/io/grib/GribFileIndex.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 57aae39..42f930e 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -353,6 +353,14 @@ GribMetricDef getGridDefMetric(long /*edition*/, grib_handle_p gh)
         grib_get(gh, "DjInMetres", gmd.incrY);
     }
 
+    const GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    if (orient & GridDefinition::ScanStartRight) {
+        gmd.incrX *= -1;
+    }
+    if (!(orient & GridDefinition::ScanStartBottom)) {
+        gmd.incrY *= -1;
+    }
+
     return gmd;
 }
 
-- 
2.43.0


From a6c21265471b9fd8056180fa7868b86d0931c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 131/137] fix: scale and unit of the axes of an oblate earth in
 grib2 messages

---
 src/io/grib/GribFileIndex.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 42f930e..1e355cf 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -156,28 +156,28 @@ std::string getEarthsOblateFigure(grib_handle_p gh, long factorToM)
     grib_get(gh, "scaleFactorOfMajorAxisOfOblateSpheroidEarth", majorFactor);
     grib_get(gh, "scaledValueOfMajorAxisOfOblateSpheroidEarth", majorValue);
     while (majorFactor > 0) {
-        majorValue *= 10;
+        majorValue /= 10;
         majorFactor--;
     }
     while (majorFactor < 0) {
-        majorValue /= 10;
+        majorValue *= 10;
         majorFactor++;
     }
     // transfer km to m
-    majorFactor *= factorToM;
+    majorValue *= factorToM;
 
     grib_get(gh, "scaleFactorOfMinorAxisOfOblateSpheroidEarth", minorFactor);
     grib_get(gh, "scaledValueOfMinorAxisOfOblateSpheroidEarth", minorValue);
     while (minorFactor > 0) {
-        minorValue *= 10;
+        minorValue /= 10;
         minorFactor--;
     }
     while (minorFactor < 0) {
-        minorValue /= 10;
+        minorValue *= 10;
         minorFactor++;
     }
     // transfer (km|m) to m
-    minorFactor *= factorToM;
+    minorValue *= factorToM;
 
     return "+a=" + type2string(majorValue) + " +b=" + type2string(minorValue);
 }
-- 
2.43.0


From dc2b8767852be48f265e37887cbd1dd04f450f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 132/137] fix: vector directions configured for grib variables
 were ignored

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index cbecbb4..f07c2ec 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -946,7 +946,7 @@ void GribCDMIndexer::initAddVariables(std::shared_ptr<CDM> cdm, std::shared_ptr<
         }
 
         CDMVariable var(varName, vh.second.datatype, shape);
-        if (vh.second.vectorCounterpart.empty()) {
+        if (!vh.second.vectorCounterpart.empty()) {
             var.setAsSpatialVector(vh.second.vectorCounterpart, CDMVariable::vectorDirectionFromString(vh.second.vectorDirection));
         }
         cdm->addVariable(var);
-- 
2.43.0


From 1562cf92ddf0ac3347c62b6b29d7fab8e43d3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:44 +0000
Subject: [PATCH 133/137] fix: the length of grib messages of an unknown
 edition was undefined, damaged lengths were allocated

---
 src/io/grib/GribFileIndex.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 1e355cf..bb0d4e8 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -479,11 +479,16 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     } else if (grib_version == 2) {
         s0 = 8;
         sn = 8;
+    } else {
+        throw runtime_error("unknown grib edition in message at byte " + std::to_string(offset));
     }
     size_t grib_msg_size = 0;
     for (size_t i = 0; i < sn; ++i) {
         grib_msg_size = (grib_msg_size << 8) | size_t(buffer[s0 + i]);
     }
+    if (grib_msg_size == 0 || grib_msg_size > cr->size() - offset) {
+        throw runtime_error("invalid length of grib message at byte " + std::to_string(offset));
+    }
     return grib_msg_size;
 }
 
-- 
2.43.0


From be5d3871dd1692ce8127a9a929ddc84feb90498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 134/137] fix: files in later directories did not match
 patterns with directories

---
 src/FileUtils.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..fdc20d7 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -163,11 +163,9 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
-                if (!matchFileOnly) {
-                    // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
-                }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                // remember the directory behind start-directory
+                const std::string relDir = matchFileOnly ? "" : currentRelDir + path_filename_string(e) + "/";
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, relDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From 9211b86a6dcfc5f9fd5960f2ef300bf89d80ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 135/137] fix: all scanned files of a joinNew aggregation got
 the same coordinate value

---
 src/NcmlAggregationReader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..eaaa2f8 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -133,7 +133,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -163,11 +162,11 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                     if (aggJoinNew)
                         coordValue = "location_" + type2string(idx);
                     agg->addReader(CDMFileReaderFactory::create(type, fileName, config), fileName, coordValue);
+                    idx += 1;
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From 6e2fc3dab40926812963d9be125cd0ce7ffc66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 136/137] fix: ncml files with several aggregations used none
 of them instead of the first

---
 src/NcmlAggregationReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index eaaa2f8..4e9bfc5 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -93,9 +93,10 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
             LOG4FIMEX(logger, Logger::DEBUG, "reading file '" << file << "' type '" << type << "' config '" << config << "'");
             reader_ = CDMFileReaderFactory::create(type, file, config);
         }
-    } else if (nodesAgg.size() > 1) {
-        LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
     } else {
+        if (nodesAgg.size() > 1) {
+            LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
+        }
         const auto aggType = getXmlProp(nodesAgg[0], "type");
         auto agg = std::make_shared<AggregationReader>(aggType);
         const bool aggJoinNew = agg->aggType() == AggregationReader::AGG_JOIN_NEW;
-- 
2.43.0


From 245f94fd472e35ff174c515adf8d46b5c94c23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 137/137] fix: packed forecast reference times were read
 without scale and offset

---
 src/CDMReaderUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMReaderUtils.cc b/src/CDMReaderUtils.cc
index 3b4d108..4c7b838 100644
--- a/src/CDMReaderUtils.cc
+++ b/src/CDMReaderUtils.cc
@@ -55,7 +55,7 @@ FimexTime getUniqueForecastReferenceTimeFT(CDMReader_p reader)
     for (const string& varname : refVarnames) {
         const string units = cdm.getUnits(varname);
         TimeUnit tu(units);
-        DataPtr timeData = reader->getData(varname);
+        DataPtr timeData = reader->getScaledData(varname);
         auto times = timeData->asDouble();
         const double* tPtr = &times[0];
         const double* end = tPtr + timeData->size();
-- 
2.43.0

