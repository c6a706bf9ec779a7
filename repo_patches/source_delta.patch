From 684eb48eaed9c524882b356a73fd169ea99607e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:18 +0000
Subject: [PATCH 01/39] fix: start the average of a series from zero

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..2da351c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -166,7 +166,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From ef08c1b3748aa764b4b6381d06af774e2aebb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:18 +0000
Subject: [PATCH 02/39] fix: size an assigned series by its source and survive
 self-assignment

---
 genex/TimeSeries.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 2da351c..eefb1ce 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,8 +76,8 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
@@ -92,6 +95,9 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
-- 
2.43.0


From 208c81cbd9286aae84c77023021fc0bae6c35961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:18 +0000
Subject: [PATCH 03/39] fix: drop the cached envelope when a series is assigned

---
 genex/TimeSeries.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index eefb1ce..7ba5ba6 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -89,6 +89,7 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
@@ -112,6 +113,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
-- 
2.43.0


From 2d70211d4c05f207726c9f24d55839ae6031591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:18 +0000
Subject: [PATCH 04/39] fix: compare series by their own range, not just their
 data pointer

---
 genex/TimeSeries.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 7ba5ba6..676edf4 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -156,15 +156,15 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->length != other.length) {
+    return false;
+  }
+  if (this->data == other.data && this->start == other.start) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
     return false;
   }
-  if (this->length != other.length) {
-    return false;
-  }
   for (int i = 0; i < this->length; i++) {
     if (abs(this->data[this->start + i] - other.data[other.start + i]) > EPS) {
       return false;
-- 
2.43.0


From a1173d5f29cbeab65c2d8378a465368b7934b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 05/39] fix: initialise the shared metric objects without a
 data race

---
 genex/distance/Distance.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..c9e4add 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -91,10 +91,7 @@ data_t warpedDistance(
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
   
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -237,11 +234,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
@@ -280,11 +273,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
-- 
2.43.0


From b62120123e9f02614f2df56cddac12c1b50777ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 06/39] fix: release the accumulators of the first row and
 column

---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index c9e4add..dc4b8b9 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -206,9 +206,9 @@ data_t warpedDistance(
   }
   matching.push_back(coord_t {0, 0});
   std::reverse(matching.begin(), matching.end());
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From cbfed15fe508beb3a916b269cb18a3eda8ac9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 07/39] fix: treat alignment cells outside the warping band as
 unreachable

---
 genex/distance/Distance.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index dc4b8b9..2de6d44 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -105,18 +105,15 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
-  // band constraint
-  ncost[m - 1][n - 1] = INF;
+  // Cells that are never reached due to the warping band constraint stay infinite
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -124,7 +121,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0


From ef095e182a7e15d2d76a9dbb6fb3ca359261c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:21 +0000
Subject: [PATCH 08/39] fix: trace matchings back along the alignment the
 distance was computed on

---
 genex/distance/Distance.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 2de6d44..7b98ea3 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -143,12 +143,14 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
-      if (i1j1 < ij1 && i1j1 < i1j)
+      // The diagonal neighbor is always inside the warping band. It is preferred among equals
+      // and when costs are undefined, both here and when tracing the matching back.
+      T minPrev = cost[i-1][j-1];
+      if (i1j < i1j1 && i1j <= ij1)
       {
-        minPrev = cost[i-1][j-1];
+        minPrev = cost[i-1][j];
       }
-      else if (ij1 < i1j)
+      else if (ij1 < i1j1)
       {
         minPrev = cost[i][j-1];
       }
@@ -185,18 +187,15 @@ data_t warpedDistance(
     }
     
     else {
-      double minNeighbor = std::min(ncost[i - 1][j - 1]
-                                    , std::min(ncost[i - 1][j]
-                                               , ncost[i][j - 1])
-                                    );
-      if (ncost[i - 1][j - 1] == minNeighbor) {
+      auto diagonal = ncost[i - 1][j - 1];
+      if (ncost[i - 1][j] < diagonal && ncost[i - 1][j] <= ncost[i][j - 1]) {
         i--;
+      }
+      else if (ncost[i][j - 1] < diagonal) {
         j--;
       }
-      else if (ncost[i - 1][j] == minNeighbor) {
+      else {
         i--;
-      }
-      else if (ncost[i][j - 1] == minNeighbor) {
         j--;
       }
     }
-- 
2.43.0


From 547270f87f3f2b511a30cc47013e768714d99903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:21 +0000
Subject: [PATCH 09/39] fix: report a matching only when one is asked for

---
 genex/distance/Distance.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 7b98ea3..a96666e 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -100,6 +100,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
@@ -176,7 +179,7 @@ data_t warpedDistance(
 
   int i = m - 1;
   int j = n - 1;
-  while ((i != 0) || (j != 0)) {
+  while (computeMatching && ((i != 0) || (j != 0))) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
       j--;
@@ -200,8 +203,10 @@ data_t warpedDistance(
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
   for(int i = 0; i < m; i++)
   {
     for(int j = 0; j < n; j++)
-- 
2.43.0


From cc6820279cf46615b872acfc2d240ee8b2e685bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:21 +0000
Subject: [PATCH 10/39] fix: report grouping progress of small datasets without
 dividing by zero

---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..da16fea 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 659bf1ff72ecf3df9e284bb26ae38d9b4bd4541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:21 +0000
Subject: [PATCH 11/39] fix: only search lengths that are grouped and refuse
 queries none of them fits

---
 genex/group/GlobalGroupSpace.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..7bce151 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No group is comparable to the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -254,7 +257,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -263,7 +268,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 5d3114e38f0d43116bde0fc03b109703b177b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:21 +0000
Subject: [PATCH 12/39] fix: refuse a non-positive k and do not pad short
 k-best answers

---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..56a883e 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -155,13 +155,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From 2049c4f2299b42086848def3282b9efec2711594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:42 +0000
Subject: [PATCH 13/39] fix: keep the existing groups when a grouping request
 is refused

---
 genex/GroupableTimeSeriesSet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 56a883e..f5644d7 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -27,22 +28,23 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = newGroups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = newGroups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+
+  // replace old groups once grouping has succeeded
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   return cntGroups;
 }
 
-- 
2.43.0


From 41c3ff7c87e0cebb1ac8f34e91348f3bdd3478e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 14/39] fix: remember whole-series grouping when groups are
 loaded

---
 genex/group/GlobalGroupSpace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..ca856bd 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -116,6 +116,7 @@ private:
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+    this->wholeSeriesOnly = minLen + 1 == maxLen;
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 96b79145aafd9a5cef92650dcbc72f6792af4577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 15/39] fix: refuse text group files that are empty or of
 another length

---
 genex/GroupableTimeSeriesSet.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index f5644d7..c2a979b 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -116,7 +116,7 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
   ifstream fin(path);
   if (fin)
   {
-    int version, grpItemCount, grpItemLength;
+    int version = 0, grpItemCount = 0, grpItemLength = 0;
     data_t threshold;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
     if (version != GROUP_FILE_VERSION)
@@ -127,10 +127,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     reset();
     this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-- 
2.43.0


From a54d8892993c325dcd882e4ab7e65e3af67ca222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 16/39] fix: restore threshold and representatives from text
 group files

---
 genex/GroupableTimeSeriesSet.cpp | 7 +++++--
 genex/TimeSeries.cpp             | 2 +-
 genex/group/GlobalGroupSpace.cpp | 4 +++-
 genex/group/GlobalGroupSpace.hpp | 2 +-
 genex/group/Group.cpp            | 8 ++++++++
 5 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index c2a979b..77278ef 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <memory>
 
 #include "IO.hpp"
@@ -98,7 +100,8 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
-    fout << GROUP_FILE_VERSION << " "
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10)
+         << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
@@ -134,7 +137,7 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     cout << "Saved groups are compatible with the dataset" << endl;
     reset();
     this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin, threshold);
   }
   else
   {
diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 676edf4..0a1cfab 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -234,7 +234,7 @@ string TimeSeries::getIdentifierString() const
 std::ostream &TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
   return out;
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 7bce151..e76487e 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,7 +231,7 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
@@ -241,6 +241,8 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+  this->threshold = threshold;
+  this->wholeSeriesOnly = lenFrom + 1 == lenTo;
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index ca856bd..4a9f44a 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..fc5d6bd 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -169,6 +169,14 @@ void Group::loadGroupOld(ifstream &fin)
     fin >> index >> start;
     this->addMember(index, start);
   }
+
+  // The file only has the values of the centroid, look for the member it was taken from
+  for (const auto& member : this->getMembers()) {
+    if (member == this->centroid) {
+      this->setCentroid(member.getIndex(), member.getStart());
+      break;
+    }
+  }
 }
 
 } // namespace genex
-- 
2.43.0


From b27cde0e4f4a5f065ff1610972e579d6028b4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 17/39] fix: save datasets with full precision

---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..130e81e 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
 #include <cstring>
 #include <boost/tokenizer.hpp>
@@ -157,6 +158,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
-- 
2.43.0


From a9ec77669b4b527188944c64b7fabdc1f9725b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 18/39] fix: drop block averages together with the dataset they
 belong to

---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..cae7795 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 04301cfbfc14551b46887881d9499dbf08869845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 19/39] fix: do not count a dataset as prepared after a refused
 block size

---
 genex/GenexAPI.cpp   | 10 +++++-----
 genex/PAAWrapper.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index cae7795..01f92f0 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 #include "IO.hpp"
 
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -223,15 +224,14 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
   if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
+    this->_paaWrappers[name]->generatePAAMatrix(blockSize);
   }
   else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
+    std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
+    wrapper->generatePAAMatrix(blockSize);
+    this->_paaWrappers[name] = wrapper.release();
   }
-  wrapper->generatePAAMatrix(blockSize);
 }
 
 vector<candidate_time_series_t>
diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..64fa454 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -12,7 +12,7 @@ using std::endl;
 
 namespace genex {
 
-PAAWrapper::PAAWrapper(const TimeSeriesSet& dataset): dataset(dataset)
+PAAWrapper::PAAWrapper(const TimeSeriesSet& dataset): dataset(dataset), blockSize(1)
 {
   for (int i = 0; i < dataset.getItemCount(); i++) {
     TimeSeries ts = dataset.getTimeSeries(i);
-- 
2.43.0


From 950fb99e7b012bca59c5bee764168866386918d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:30 +0000
Subject: [PATCH 20/39] fix: average each series over its own length

---
 genex/PAAWrapper.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 64fa454..e485d8e 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -49,11 +49,10 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +105,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 664a5f5c09cc5fec781c39c980fa551969da5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:42 +0000
Subject: [PATCH 21/39] fix: refuse matchings for distance names shorter than
 the warped suffix

---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 01f92f0..91a8680 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -267,7 +267,7 @@ matching_t GenexAPI::matchingBetween(const string& name1, int idx1, int start1,
   this->_checkDatasetName(name2);
   auto ts1 = this->_loadedDatasets[name1]->getTimeSeries(idx1, start1, end1);
   auto ts2 = this->_loadedDatasets[name2]->getTimeSeries(idx2, start2, end2);
-  if (distance_name.substr(distance_name.length() - 3) != "dtw") {
+  if (distance_name.length() < 3 || distance_name.substr(distance_name.length() - 3) != "dtw") {
     throw GenexException("Can only compute matchings using _dtw distances");
   }  
   const dist_t distance = getDistanceFromName(distance_name);
-- 
2.43.0


From d74d0ea157293731566f9f51ede163ac0d443e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:42 +0000
Subject: [PATCH 22/39] fix: refuse the length of a series that does not exist

---
 genex/TimeSeriesSet.cpp | 9 +++++++++
 genex/TimeSeriesSet.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 130e81e..15c1127 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -41,6 +41,15 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
+int TimeSeriesSet::getItemLength(int index) const
+{
+  if (index < 0 || index >= this->itemCount)
+  {
+    throw GenexException("Invalid time series index");
+  }
+  return this->lengths[index];
+}
+
 std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
 {
   int lineCount = 0;
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..ed60070 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -75,7 +75,7 @@ public:
    *
    * @return length of each time series
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const;
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From e5ec917e2cde0de48df3d18533f4711da324f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:42 +0000
Subject: [PATCH 23/39] fix: forget series lengths and normalisation when data
 is cleared

---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 15c1127..071b8fb 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -187,6 +187,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From a443657c77857399f07e13641d04ba442c4109e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:42 +0000
Subject: [PATCH 24/39] fix: load rows that end before the first requested
 column as empty

---
 genex/TimeSeriesSet.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 071b8fb..3a46e8b 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -79,6 +79,10 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -108,7 +112,11 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int columns = std::distance(tokens.begin(), tokens.end());
+      this->lengths.push_back(std::max(columns - startCol - hasNameCol, 0));
+      if (hasNameCol && columns <= startCol) {
+        this->names.push_back("");
+      }
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -155,7 +163,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From fdda8b61d4a14753f3dbfa329775d11b0e5fa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:42 +0000
Subject: [PATCH 25/39] fix: take the longest length from the loaded rows only

---
 genex/TimeSeriesSet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 3a46e8b..8cfa16d 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -50,7 +50,7 @@ int TimeSeriesSet::getItemLength(int index) const
   return this->lengths[index];
 }
 
-std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
+std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, int maxNumRow, const string& separators)
 {
   int lineCount = 0;
   int maxColumn = 0;
@@ -58,7 +58,7 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
   string line;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
-  for (lineCount = 0; std::getline(f, line); ++lineCount)
+  for (lineCount = 0; (maxNumRow <= 0 || lineCount < maxNumRow) && std::getline(f, line); ++lineCount)
   {
     tokenizer tokens(line, sep);
     length = std::distance(tokens.begin(), tokens.end());
@@ -89,7 +89,7 @@ void TimeSeriesSet::loadData(const string& filePath
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
-  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators);
+  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, maxNumRow, separators);
   if (maxNumRow <= 0) {
     maxNumRow = maxRowMaxColumn.first;
   }
-- 
2.43.0


From 7eaaf793f510c7dea926e0da59736cca65306c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 26/39] fix: drop groups together with the data they refer to

---
 genex/GroupableTimeSeriesSet.cpp | 6 ++++++
 genex/GroupableTimeSeriesSet.hpp | 5 +++++
 genex/TimeSeriesSet.hpp          | 2 +-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 77278ef..1a4e4de 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -50,6 +50,12 @@ int GroupableTimeSeriesSet::groupAllLengths(
   return cntGroups;
 }
 
+void GroupableTimeSeriesSet::clearData()
+{
+  reset();
+  TimeSeriesSet::clearData();
+}
+
 bool GroupableTimeSeriesSet::isGrouped() const
 {
   return this->groupsAllLengthSet != nullptr;
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..7b6f5a2 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -40,6 +40,11 @@ public:
                       int numThreads,
                       bool wholeSeriesOnly);
   
+  /**
+   *  @brief clears all data and the groups made of it
+   */
+  void clearData() override;
+
   /**
    *  @brief deletes and clears the groups
    */
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index ed60070..1b8ca1d 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -68,7 +68,7 @@ public:
   /**
    * @brief clears all data
    */
-  void clearData();
+  virtual void clearData();
 
   /**
    * @brief gets length of the specified time series in the dataset
-- 
2.43.0


From 29be29b561879a629e67b7a8821c95e2f6ebc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 27/39] fix: forget centroid envelopes when the dataset is
 normalised

---
 genex/GroupableTimeSeriesSet.cpp      | 9 +++++++++
 genex/GroupableTimeSeriesSet.hpp      | 5 +++++
 genex/TimeSeriesSet.hpp               | 2 +-
 genex/group/GlobalGroupSpace.cpp      | 9 +++++++++
 genex/group/GlobalGroupSpace.hpp      | 5 +++++
 genex/group/LocalLengthGroupSpace.cpp | 8 ++++++++
 genex/group/LocalLengthGroupSpace.hpp | 5 +++++
 7 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1a4e4de..6077285 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -56,6 +56,15 @@ void GroupableTimeSeriesSet::clearData()
   TimeSeriesSet::clearData();
 }
 
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  auto minMax = TimeSeriesSet::normalize();
+  if (this->isGrouped()) {
+    this->groupsAllLengthSet->refreshCentroids();
+  }
+  return minMax;
+}
+
 bool GroupableTimeSeriesSet::isGrouped() const
 {
   return this->groupsAllLengthSet != nullptr;
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 7b6f5a2..e0f96d2 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -45,6 +45,11 @@ public:
    */
   void clearData() override;
 
+  /**
+   *  @brief normalizes the dataset, groups are kept and see the new values
+   */
+  std::pair<data_t, data_t> normalize() override;
+
   /**
    *  @brief deletes and clears the groups
    */
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 1b8ca1d..48646c8 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -128,7 +128,7 @@ public:
    * @return a pair (min, max) - the minimum and maximum value across
    *          the whole dataset before being normalized.
    */
-  std::pair<data_t, data_t> normalize();
+  virtual std::pair<data_t, data_t> normalize();
 
   /**
   *  @brief check if the dataset is normalized
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index e76487e..262f7f8 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -216,6 +216,15 @@ GlobalGroupSpace::getKBestMatches(const TimeSeries& query, int k)
   return best;
 }
 
+void GlobalGroupSpace::refreshCentroids()
+{
+  for (auto space : this->localLengthGroupSpace) {
+    if (space != nullptr) {
+      space->refreshCentroids();
+    }
+  }
+}
+
 void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
 {
   // Range of lengths and distance name
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 4a9f44a..8838396 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -78,6 +78,11 @@ public:
    */
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
+  /**
+   *  @brief forgets what is cached about the centroids after values in the dataset changed
+   */
+  void refreshCentroids();
+
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
   int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index da16fea..7b10a58 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -122,6 +122,14 @@ const Group* LocalLengthGroupSpace::getGroup(int idx) const
   return this->groups[idx];
 }
 
+void LocalLengthGroupSpace::refreshCentroids()
+{
+  for (auto g : groups) {
+    const auto& centroid = g->getCentroid();
+    g->setCentroid(centroid.getIndex(), centroid.getStart());
+  }
+}
+
 void LocalLengthGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const 
 {
   // Number of groups having time series of this length
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..708d4d7 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -49,6 +49,11 @@ public:
    */
   const Group* getGroup(int idx) const;
   
+  /**
+   *  @brief forgets what is cached about the centroids after values in the dataset changed
+   */
+  void refreshCentroids();
+
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
   int loadGroupsOld(std::ifstream &fin);
   
-- 
2.43.0


From 7443a4d6054def24c881f02f30dbe6d351fb34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 28/39] fix: drop block averages of values that were normalised
 away

---
 genex/GenexAPI.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 91a8680..d35a7d5 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -149,7 +149,14 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto minMax = this->_loadedDatasets[name]->normalize();
+  // Block averages of the old values are of no use anymore
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
+  {
+    delete this->_paaWrappers[name];
+    this->_paaWrappers.erase(name);
+  }
+  return minMax;
 }
 
 int GenexAPI::groupDataset(
-- 
2.43.0


From 4f5a32c03189b86a12e91b7ddb5b70014d74c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 29/39] fix: refuse warped distances of empty series

---
 genex/distance/Distance.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index a96666e..3a70902 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -89,6 +89,10 @@ data_t warpedDistance(
   bool computeMatching = matching.empty(); 
   auto m = a.getLength();
   auto n = b.getLength();
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Two time series must not be empty for warped distance");
+  }
   auto r = calculateWarpingBandSize(max(m, n));
   
   static DM* metric = new DM();
-- 
2.43.0


From 60944c4b7b5d385a34168234caa189cf09b7dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 30/39] fix: keep the existing groups when a group file cannot
 be read

---
 genex/GroupableTimeSeriesSet.cpp | 5 +++--
 genex/GroupableTimeSeriesSet.hpp | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 6077285..ada6fe3 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -150,9 +150,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
       throw GenexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin, threshold);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index e0f96d2..bc0bb5f 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -125,9 +126,10 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From f72dea7458c731cf5fab6c948a4f1afb23e9b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:58 +0000
Subject: [PATCH 31/39] fix: average no blocks out of an empty series

A block size above one rounded the number of blocks of an empty series up to
one, so searching with an empty query compared against a block of value zero.
---
 genex/PAAWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index e485d8e..10203a5 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -28,7 +28,7 @@ TimeSeries tsPAA(const TimeSeries& source, int blockSize)
   data_t sum = 0;
   int count = 0;
   int srcLength = source.getLength();
-  int destLength = (srcLength - 1) / blockSize + 1;
+  int destLength = srcLength / blockSize + (srcLength % blockSize != 0);
   TimeSeries dest(destLength);
   for (int i = 0; i < srcLength; i++)
   {
-- 
2.43.0


From 47948f5828c0d1bbfea6552e7d2981f9edc177b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:56 +0000
Subject: [PATCH 32/39] fix: release lines read at the prompt with free

readline allocates with malloc, so delete on its result is undefined
behaviour. The confirmation prompt also kept its last line allocated.
---
 cli/GenexCLI.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..6506a86 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -792,14 +793,16 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
+      free(raw_line);
       return true;
     }
   }
   while (strcmp(raw_line, "n") != 0);
+  free(raw_line);
   return false;
 }
 
@@ -829,7 +832,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 9d19ba0d16f807bc5a9a97922a38d43b4ee5f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:59 +0000
Subject: [PATCH 33/39] fix: refuse an incomplete or overlong sub-sequence in
 ksimBF

With only a starting position, or with one argument more than its usage
lists, the command silently searched for the whole series.
---
 cli/GenexCLI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 6506a86..4395acd 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -545,6 +545,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Both starting and ending positions must be provided.";
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From aa617d21a13aee46cf47707fde3e967949eb1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:59 +0000
Subject: [PATCH 34/39] fix: honour the query range when ksim is also given ke

The starting and ending positions were only read when they were the last
arguments, so adding ke searched for the whole series instead.
---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 4395acd..dbe4ccd 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -482,7 +482,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From a7f47f71e4e473fd85dfa23ce6b7ff1d5a4b49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:26 +0000
Subject: [PATCH 35/39] fix: name the range arguments of getMatching in the
 Python module

The argument names were attached to the last two parameters, so start2 and
end2 named the end position and the distance. Name all three trailing
parameters, which makes the range defaults usable.
---
 pygenex/GENEXBindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..914d89a 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,7 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From 31a0ed7e53ddea2ff59fadb4c88b3499c773a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:16 +0000
Subject: [PATCH 36/39] fix: refuse group files that are cut short or do not
 fit the series

---
 genex/group/GlobalGroupSpace.cpp      | 14 ++++++++++++--
 genex/group/GlobalGroupSpace.hpp      |  4 +++-
 genex/group/Group.cpp                 | 20 +++++++++++++++++++-
 genex/group/Group.hpp                 | 13 +++++++++++--
 genex/group/LocalLengthGroupSpace.cpp | 23 ++++++++++++++++++++---
 genex/group/LocalLengthGroupSpace.hpp |  4 +++-
 6 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 262f7f8..e85b698 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -1,6 +1,7 @@
 #include "GlobalGroupSpace.hpp"
 #include "group/LocalLengthGroupSpace.hpp"
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "TimeSeriesSet.hpp"
 #include "group/Group.hpp"
 #include "distance/Distance.hpp"
@@ -244,10 +245,11 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
-  int lenFrom, lenTo;
+  int lenFrom = 0, lenTo = 0;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
   boost::trim_right(distance);
+  this->_checkLengths(lenFrom, lenTo);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->threshold = threshold;
@@ -255,12 +257,20 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
 
+void GlobalGroupSpace::_checkLengths(int from, int to) const
+{
+  auto maxLength = this->dataset.getMaxLength();
+  if (to != maxLength + 1 || (from != 2 && from != maxLength)) {
+    throw GenexException("Saved groups do not fit the dataset");
+  }
+}
+
 vector<int> generateTraverseOrder(int queryLength, int totalLength)
 {
   vector<int> order;
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 8838396..9fe1e43 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -98,6 +98,7 @@ private:
   void _loadDistance(const std::string& distanceName);
   int _group(int i);
   int _getMinLength() const;
+  void _checkLengths(int from, int to) const;
 
   /*************************
    *  Start serialization
@@ -119,14 +120,15 @@ private:
   {
     size_t maxLen, minLen;
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
+    this->_checkLengths(minLen, maxLen);
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     this->wholeSeriesOnly = minLen + 1 == maxLen;
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index fc5d6bd..efdd188 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <algorithm>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -23,6 +24,17 @@ void Group::addMember(int tsIndex, int tsStart)
   this->lastMemberCoord = std::make_pair(tsIndex, tsStart);
 }
 
+void Group::restoreMember(int tsIndex, int tsStart)
+{
+  if (tsIndex < 0 || tsIndex >= this->dataset.getItemCount() || tsStart < 0
+      || tsStart > this->dataset.getItemLength(tsIndex) - this->memberLength
+      || this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart].groupIndex != -1)
+  {
+    throw GenexException("Saved groups do not fit the dataset");
+  }
+  this->addMember(tsIndex, tsStart);
+}
+
 void Group::setCentroid(int tsIndex, int tsStart)
 {
   this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
@@ -164,10 +176,16 @@ void Group::loadGroupOld(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (!fin || cnt <= 0) {
+    throw GenexException("Group file is damaged");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     fin >> index >> start;
-    this->addMember(index, start);
+    if (!fin) {
+      throw GenexException("Group file is damaged");
+    }
+    this->restoreMember(index, start);
   }
 
   // The file only has the values of the centroid, look for the member it was taken from
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..0709e11 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1), prev(-1, -1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -86,6 +86,15 @@ public:
    */
   void addMember(int index, int start);
 
+  /**
+   *  @brief adds a member read from a group file to the group
+   *
+   *  @param index index of sequence the member is from
+   *  @param start where the member starts in the data
+   *  @throws GenexException if there is no such member or it already belongs to a group
+   */
+  void restoreMember(int index, int start);
+
   /**
    *  @brief set the centroid of the group
    *
@@ -202,7 +211,7 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
-      this->addMember(index, start);
+      this->restoreMember(index, start);
     }
   }
 
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 7b10a58..1067560 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -154,7 +154,9 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups)) {
+    throw GenexException("Group file is damaged");
+  }
   for (auto i = 0; i < numberOfGroups; i++)
   {
     auto grp = new Group(i
@@ -162,10 +164,25 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
+  }
+  this->_checkComplete();
+  return this->groups.size();
+}
+
+void LocalLengthGroupSpace::_checkComplete() const
+{
+  int expected = 0, found = 0;
+  for (auto i = 0; i < this->dataset.getItemCount(); i++) {
+    expected += std::max(this->dataset.getItemLength(i) - this->length + 1, 0);
+  }
+  for (auto g : this->groups) {
+    found += g->getCount();
+  }
+  if (found != expected) {
+    throw GenexException("Saved groups do not fit the dataset");
   }
-  return numberOfGroups;
 }
 
 candidate_group_t LocalLengthGroupSpace::getBestGroup(const TimeSeries& query,
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 708d4d7..22af999 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -87,6 +87,7 @@ private:
   const TimeSeriesSet& dataset;
   vector<Group*> groups;
   vector<group_membership_t> memberMap;
+  void _checkComplete() const;
 
   /*************************
    *  Start serialization
@@ -114,9 +115,10 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
+    this->_checkComplete();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 3b0fbfbaba60f8d21966079d1bfbe20624647203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:51 +0000
Subject: [PATCH 37/39] fix: report unreadable group files with the library's
 exception

---
 genex/IO.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..dffa293 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -53,10 +53,21 @@ void loadFromFile(A & obj, const std::string & fname) {
         filter_isbuf.push(boost::iostreams::zlib_decompressor());
         filter_isbuf.push(ifs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_iarchive bia(filter_isbuf);
+        try
+        {
+            // start the archive on the filtering buffer
+            boost::archive::binary_iarchive bia(filter_isbuf);
 
-        bia >> obj;
+            bia >> obj;
+        }
+        catch (const GenexException&)
+        {
+            throw;
+        }
+        catch (const std::exception& e)
+        {
+            throw GenexException(std::string("Cannot read file: ") + e.what());
+        }
     }
     else 
     {
-- 
2.43.0


From 546828e3d5ddf97713319e22b77bb256e39eff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:52 +0000
Subject: [PATCH 38/39] fix: refuse dataset files that cannot be read to the
 end

---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 8cfa16d..a8b4b62 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -66,6 +66,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, int maxNumRow, const
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
-- 
2.43.0


From 8fba9838cb0817de46aff5d8e1347ca0d1f4f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:52 +0000
Subject: [PATCH 39/39] fix: report saves that could not be completed

---
 genex/GroupableTimeSeriesSet.cpp |  5 +++++
 genex/IO.hpp                     | 21 +++++++++++++++------
 genex/TimeSeriesSet.cpp          |  4 ++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index ada6fe3..e67333c 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -121,6 +121,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Cannot write file");
+    }
   }
   else
   {
diff --git a/genex/IO.hpp b/genex/IO.hpp
index dffa293..2f4517c 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -10,6 +10,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -21,24 +22,32 @@ namespace genex {
 
 template<typename A>
 void saveToFile(const A & obj, const std::string & fname) {
-    std::ofstream ofs(fname, std::ios::binary);
-    if (ofs)
+    // compress in memory, so that the file is only touched once there is something to write
+    std::ostringstream compressed;
     {
         boost::iostreams::filtering_ostreambuf filter_osbuf;
 
-        // push the ofstream and the compressor
+        // push the string stream and the compressor
         filter_osbuf.push(
             boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
+        filter_osbuf.push(compressed);
 
         // start the archive on the filtering buffer
         boost::archive::binary_oarchive boa(filter_osbuf);
 
         boa << obj;
     }
-    else 
+
+    std::ofstream ofs(fname, std::ios::binary);
+    if (!ofs)
+    {
+        throw GenexException("Cannot open file");
+    }
+    ofs << compressed.str();
+    ofs.close();
+    if (!ofs)
     {
-        throw GenexException("Cannot open file");    
+        throw GenexException("Cannot write file");
     }
 }
 
diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a8b4b62..0e964c4 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -190,6 +190,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Cannot write ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0

