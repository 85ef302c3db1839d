From 5da59dd45cb3045d8a026a67300b0a26f3a0a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 01/17] fix: unpack the band that was packed when band indices
 are not in mapping order

unpack looked the band index up in the order of the bands mapping, so a
mapping whose integers are permuted or have gaps gave the wrong band or an
IndexError.
---
 python/lsst/skymap/packers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..32e2518 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-        self._bands_list = None
+        self._bands_by_index = None
 
     @classmethod
     def make_config_field(
@@ -269,8 +269,8 @@ class SkyMapDimensionPacker(DimensionPacker):
         d = {"skymap": self.fixed["skymap"]}
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
-            if self._bands_list is None:
-                self._bands_list = list(self._bands)
-            d["band"] = self._bands_list[index]
+            if self._bands_by_index is None:
+                self._bands_by_index = {i: band for band, i in self._bands.items()}
+            d["band"] = self._bands_by_index[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 9c8a35dc7973e67888483c00bc58c395ce4666b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 02/17] fix: refuse to pack negative tract, patch and band
 indices

They passed the upper-bound check and packed to a negative integer or to the
integer of a different data ID.
---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 32e2518..63aa79f 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 550844990678c6cb3bb5563f9a35f5153c37621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/17] fix: RingsSkyMap.findTractIdArray accepts scalars in
 degrees too

Scalars work in radians, and for every other sky map in either unit; in
degrees np.deg2rad returned a numpy scalar and len() of it raised TypeError.
---
 python/lsst/skymap/ringsSkyMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..9de8e8b 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -261,8 +261,8 @@ class RingsSkyMap(CachingSkyMap):
 
     def findTractIdArray(self, ra, dec, degrees=False):
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
+            _ra = np.deg2rad(np.atleast_1d(ra))
+            _dec = np.deg2rad(np.atleast_1d(dec))
         else:
             _ra = np.atleast_1d(ra)
             _dec = np.atleast_1d(dec)
-- 
2.43.0


From 78a2a292eccd9815184a1313789f9bef44670b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 04/17] fix: keep each tract's patch grid its own when tracts
 differ in size

---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..5d45a30 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder is set up for one tract; sky maps pass the same one to all
+        # of their tracts, so each takes its own copy.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From b1d77b36b86475448870d1b44a797ec2bca152b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 05/17] fix: list the northern cap once in version 0
 RingsSkyMap.findAllTracts

---
 python/lsst/skymap/ringsSkyMap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9de8e8b..00ac788 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -353,7 +353,9 @@ class RingsSkyMap(CachingSkyMap):
         # Southern cap is 0, Northern cap is the last entry in self
         for entry in [0, len(self)-1]:
             tract = self[entry]
-            if tract.contains(coord):
+            # With version=0 the northern cap also stands for the missing first
+            # tract of the last ring, so it may have been found above.
+            if tract.contains(coord) and tract not in tractList:
                 tractList.append(tract)
 
         return tractList
-- 
2.43.0


From d0bc2c150a97cbac8649d0796252031ad32228b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 06/17] fix: raise the documented IndexError for cell indices
 out of range

---
 python/lsst/skymap/patchInfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..dd9231c 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -308,6 +308,8 @@ class PatchInfo:
         else:
             _index = Index2D(*index)
         nx, ny = self.getNumCells()
+        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
+            raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getCellIndexPair(self, sequentialIndex):
@@ -330,6 +332,8 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From 03d85d8134fc333a7e3f279e5b9c230ad374b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 07/17] fix: return a copy of the patch dimensions, so that
 changing it cannot corrupt the tract

---
 python/lsst/skymap/tractBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..7d70ea9 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
-- 
2.43.0


From a51991f52a55576ae981a577087bf1817c89b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 08/17] fix: keep every point within the plot limits for aspect
 ratios other than one

---
 doc/_static/skymap/showVisitSkyMap.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 6421e58..3fc1e87 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -924,27 +924,17 @@ def derivePlotLimits(limitsDict, raToDecLimitRatio=1.0, buffFrac=0.0):
         xLimMax += buffFrac * xDelta0
         yLimMin -= buffFrac * yDelta0
         yLimMax += buffFrac * yDelta0
-        xLimMin, xLimMax, yLimMin, yLimMax = setLimitsToEqualRatio(xLimMin, xLimMax, yLimMin, yLimMax)
         xDelta = xLimMax - xLimMin
         yDelta = yLimMax - yLimMin
-        if raToDecLimitRatio > 1.0:
-            if yDelta0 > xDelta:
-                xMid = xLimMin + 0.5 * (xDelta)
-                xLimMin = xMid - 0.5 * yDelta * raToDecLimitRatio
-                xLimMax = xMid + 0.5 * yDelta * raToDecLimitRatio
-            else:
-                yMid = yLimMin + 0.5 * (yDelta)
-                yLimMin = yMid - 0.5 * xDelta / raToDecLimitRatio
-                yLimMax = yMid + 0.5 * xDelta / raToDecLimitRatio
+        # Only ever extend a range, so that no points are cut off.
+        if xDelta < yDelta * raToDecLimitRatio:
+            xMid = xLimMin + 0.5 * xDelta
+            xLimMin = xMid - 0.5 * yDelta * raToDecLimitRatio
+            xLimMax = xMid + 0.5 * yDelta * raToDecLimitRatio
         else:
-            if xDelta0 > yDelta0:
-                yMid = yLimMin + 0.5 * (yDelta)
-                yLimMin = yMid - 0.5 * xDelta / raToDecLimitRatio
-                yLimMax = yMid + 0.5 * xDelta / raToDecLimitRatio
-            else:
-                xMid = xLimMin + 0.5 * (xDelta)
-                xLimMin = xMid - 0.5 * yDelta * raToDecLimitRatio
-                xLimMax = xMid + 0.5 * yDelta * raToDecLimitRatio
+            yMid = yLimMin + 0.5 * yDelta
+            yLimMin = yMid - 0.5 * xDelta / raToDecLimitRatio
+            yLimMax = yMid + 0.5 * xDelta / raToDecLimitRatio
     xlim = xLimMax, xLimMin
     ylim = yLimMin, yLimMax
     return xlim, ylim
-- 
2.43.0


From a76f2a118f0f43c34320854aab732642e91dedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 09/17] fix: apply a veto list of a single visit to the visits
 given

---
 doc/_static/skymap/showVisitSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 3fc1e87..6eb9a96 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -215,7 +215,7 @@ def main(
         visits.sort()
         logger.info("List of visits (N=%d) satisfying where and veto clauses: %s", len(visits), visits)
     else:
-        if len(visitVetoList) > 1:
+        if len(visitVetoList) > 0:
             visitListTemp = visits.copy()
             for visit in visitListTemp:
                 if visit in visitVetoList:
-- 
2.43.0


From b1a7330488b0e739d187920a8023935b4e70372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 10/17] fix: outline only the valid ones of the tracts given

---
 doc/_static/skymap/showVisitSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 6eb9a96..4768225 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -617,7 +617,7 @@ def main(
     tractHandleList = []
     tractStrList = []
     if tracts is not None:
-        tractOutlineList = list(set(tracts + tractList))
+        tractOutlineList, _ = sanitizeTractList(skymap, tracts + tractList)
     else:
         tractOutlineList = tractList
     tractOutlineList.sort()
-- 
2.43.0


From 0b488d185a81097d4123ad1b881ab32808ffa90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 11/17] fix: plot tracts alone when no detector is drawn

---
 doc/_static/skymap/showVisitSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 4768225..d06b335 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -510,7 +510,7 @@ def main(
             )
             doUnscaledLimitRatio = True
 
-    if not doUnscaledLimitRatio:
+    if not doUnscaledLimitRatio and len(ras) > 0:
         # Find a detector that contains the mid point in RA/Dec (or the closest
         # one) to set the plot aspect ratio.
         minDistToMidCoord = 1e12
-- 
2.43.0


From acc742676203bf8163aa2a42e3fa6bd2785421bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 12/17] fix: keep one object for each tract when threads ask
 for it together

---
 python/lsst/skymap/cachingSkyMap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index 1b0ea48..cc83838 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,8 @@
 
 __all__ = ["CachingSkyMap"]
 
+import threading
+
 from .baseSkyMap import BaseSkyMap
 
 
@@ -52,6 +54,7 @@ class CachingSkyMap(BaseSkyMap):
         super(CachingSkyMap, self).__init__(config)
         self._numTracts = numTracts
         self._tractCache = [None] * self._numTracts
+        self._tractCacheLock = threading.Lock()
         self._tractInfo = None  # We shouldn't need this; we will generate tracts on demand
         self._version = version
 
@@ -88,8 +91,12 @@ class CachingSkyMap(BaseSkyMap):
         if self._tractCache[index] is not None:
             return self._tractCache[index]
         tract = self.generateTract(index)
-        self._tractCache[index] = tract
-        return tract
+        with self._tractCacheLock:
+            # Another thread may have generated it meanwhile: keep the first,
+            # as searches take two objects for two tracts.
+            if self._tractCache[index] is None:
+                self._tractCache[index] = tract
+            return self._tractCache[index]
 
     def generateTract(self, index):
         """Generate TractInfo for the specified tract index."""
-- 
2.43.0


From 10bdade86a38c334e43bd5630f03d8dc7043409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 13/17] fix: skip detectors without finite corners in overlap
 and aspect ratio of showVisitSkyMap

---
 doc/_static/skymap/showVisitSkyMap.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index d06b335..74b342b 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -286,7 +286,7 @@ def main(
                                 imageDatasetType=imageDatasetTypeUsed,
                                 doLogWarn=False,
                             )
-                            if raCorners is not None and decCorners is not None:
+                            if hasFiniteCorners(raCorners, decCorners):
                                 detSphCorners = []
                                 for ra, dec in zip(raCorners, decCorners):
                                     pt = SpherePoint(Angle(ra, degrees), Angle(dec, degrees))
@@ -534,7 +534,7 @@ def main(
                     imageDatasetType=imageDatasetTypeUsed,
                     doLogWarn=False,
                 )
-                if raCorners is not None and decCorners is not None:
+                if hasFiniteCorners(raCorners, decCorners):
                     detSphCorners = []
                     for ra, dec in zip(raCorners, decCorners):
                         pt = SpherePoint(Angle(ra, degrees), Angle(dec, degrees))
@@ -1010,6 +1010,15 @@ def getDetRaDecCorners(
     return raCorners, decCorners
 
 
+def hasFiniteCorners(raCorners, decCorners):
+    """Whether a detector has corners, all of them at finite coordinates."""
+    return (
+        raCorners is not None
+        and decCorners is not None
+        and bool(np.all(np.isfinite(raCorners)) and np.all(np.isfinite(decCorners)))
+    )
+
+
 def getBand(visitSummary=None, butler=None, visit=None):
     """Determine band and physical filter for given visit.
 
-- 
2.43.0


From a51660c792688bf2de5b6288986377ab5f796e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:59 +0000
Subject: [PATCH 14/17] fix: no division by zero in showVisitSkyMap when no
 detector is selected

---
 doc/_static/skymap/showVisitSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 74b342b..48ae98f 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -252,7 +252,7 @@ def main(
         ):
             ccdIdList.append(ccdId)
     ccdIdList.sort()
-    nDetTot = len(ccdIdList)
+    nDetTot = max(1, len(ccdIdList))  # Fractions of it are taken, also when no detector is selected.
     missingVisitSummaryRows = {}
     nonFiniteDetectorCorners = {}
 
-- 
2.43.0


From 6a1717b235a96a68e1205572bb48e30e91ec1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:20 +0000
Subject: [PATCH 15/17] fix: take the corners of the nearest detector alone for
 its hull in showVisitSkyMap

---
 doc/_static/skymap/showVisitSkyMap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 48ae98f..f334155 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -582,6 +582,7 @@ def main(
                 imageDatasetType=imageDatasetTypeUsed,
                 doLogWarn=False,
             )
+            detSphCorners = []
             for ra, dec in zip(raCorners, decCorners):
                 pt = SpherePoint(Angle(ra, degrees), Angle(dec, degrees))
                 detSphCorners.append(pt)
-- 
2.43.0


From 28c8a2cc7429386221c43ed3ca325e55a18ff508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:27 +0000
Subject: [PATCH 16/17] fix: keep the index of a cached tract a Python int, so
 that a map used with numpy indices registers right

---
 python/lsst/skymap/cachingSkyMap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index cc83838..a37f96a 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,7 @@
 
 __all__ = ["CachingSkyMap"]
 
+import operator
 import threading
 
 from .baseSkyMap import BaseSkyMap
@@ -88,6 +89,9 @@ class CachingSkyMap(BaseSkyMap):
         """
         if index < 0 or index > self._numTracts:
             raise IndexError("Index out of range: %d vs %d" % (index, self._numTracts))
+        # The cached tract keeps its index: numpy integers (as from
+        # findTractIdArray) would be registered as something else.
+        index = operator.index(index)
         if self._tractCache[index] is not None:
             return self._tractCache[index]
         tract = self.generateTract(index)
-- 
2.43.0


From 5cad0012bee333999b4c9ace0e9b33f515ab2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:34 +0000
Subject: [PATCH 17/17] fix: keep the packer's own mapping of bands, so that it
 can be pickled and later changes do not reach it

---
 python/lsst/skymap/packers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 63aa79f..e186c07 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -173,7 +173,8 @@ class SkyMapDimensionPacker(DimensionPacker):
                 * fixed.records["skymap"].patch_ny_max
             )
         super().__init__(fixed, dimensions)
-        self._bands = bands
+        # A mapping of its own: that of a config cannot be pickled, and may change.
+        self._bands = dict(bands)
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-- 
2.43.0

