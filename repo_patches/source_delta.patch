From ca92873c40b669df09793a7b99a04cbf1adb68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 01/57] fix: eu2ax applies the sign convention to all three
 axis components

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..f5c7a41 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -148,7 +148,7 @@ def eu2axL(euIn,p=P):
     else:
       ax[i,0] = -1.0 * pf * t * np.cos(delt) / tau
       ax[i,1] = -1.0 * pf * t * np.sin(delt) / tau
-      ax[i,2] = -1.0 * ssig / tau
+      ax[i,2] = -1.0 * pf * ssig / tau
       ax[i,3] = alpha
 
     if alpha < 0.0:
-- 
2.43.0


From 12ac1e30da58bd8274ea5f1e5c6cea30d924726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 02/57] fix: om2eu returns the right first angle when Phi is
 180 degrees

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index f5c7a41..7797f8a 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From 7a25fafc157c28309ab77b7c509345e7468f7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 03/57] fix: ax2ro tests the normalised angle for a half turn

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 7797f8a..a9eb599 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -448,7 +448,7 @@ def ax2roL(axIn,p=P):
     else:
       for j in range(3):
         ro[i,j] = axn[i,j]
-      if (PI - ax[i,3]) < eps:
+      if (PI - axn[i,3]) < eps:
         ro[i,3] = np.inf
       else:
         ro[i,3] = np.tan(axn[i,3] * 0.5)
-- 
2.43.0


From 7fab9ee6b3f87456da5fe5d74ad3a553c7fd87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 04/57] fix: ax2qu normalises the axis by its length, not its
 squared length

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index a9eb599..6149430 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -480,7 +480,7 @@ def ax2quL(axIn,p=P):
       mag = 0.0
       for j in range(3):
         mag += ax[i,j] * ax[i,j]
-      s = np.sin(ax[i,3] * 0.5) / mag
+      s = np.sin(ax[i,3] * 0.5) / np.sqrt(mag)
       for j in range(3):
         qu[i,j + 1] = ax[i,j] * s
   qu = quatnormL(qu)
-- 
2.43.0


From 638528d919c34e226074e99d7dcb1a2d8c7bd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 05/57] fix: qu2ro writes the identity result to its own row
 only

---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 6149430..bd1ec3e 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From 59c33f1574a24dac8e9373f1d86be9cbecac0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 06/57] fix: ax2ho and ho2ax pass the sign convention on

---
 pyebsdindex/rotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index bd1ec3e..aee05cc 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -314,7 +314,7 @@ def qu2euL(quIn,p=P):
 
 def ax2ho(ax,p=P):
   '''axis-angle (radians) to homochoric vector  '''
-  ho = ax2hoL(np.require(ax,requirements=['C','A']))
+  ho = ax2hoL(np.require(ax,requirements=['C','A']),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -338,7 +338,7 @@ def ax2hoL(axIn,p=P):
 
 def ho2ax(ho,p=P):
   '''homochoric vector to axis-angle (radians)   '''
-  ax = ho2axL(np.require(ho,requirements=['C','A']))
+  ax = ho2axL(np.require(ho,requirements=['C','A']),p=p)
   ax = np.squeeze(ax)
   return ax
 
-- 
2.43.0


From 815f36a4c53c6d0aae3c916468ef2d4672b1a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 07/57] fix: qu2om and om2qu honour the sign convention they
 are given

---
 pyebsdindex/rotlib.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index aee05cc..79172a1 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -539,13 +539,13 @@ def qu2omL(quIn,p=P):
     q0 = qu[i,0] * pf
     qq = q0 * q0 - (qu[i,1] ** 2 + qu[i,2] ** 2 + qu[i,3] ** 2)
     om[i,0,0] = qq + 2.0 * qu[i,1] * qu[i,1]
-    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - qu[i,0] * qu[i,3])
-    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + qu[i,0] * qu[i,2])
-    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + qu[i,0] * qu[i,3])
+    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - q0 * qu[i,3])
+    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + q0 * qu[i,2])
+    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + q0 * qu[i,3])
     om[i,1,1] = qq + 2.0 * qu[i,2] * qu[i,2]
-    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - qu[i,0] * qu[i,1])
-    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - qu[i,0] * qu[i,2])
-    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + qu[i,0] * qu[i,1])
+    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - q0 * qu[i,1])
+    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - q0 * qu[i,2])
+    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + q0 * qu[i,1])
     om[i,2,2] = qq + 2.0 * qu[i,3] * qu[i,3]
 
     tr = om[i,0,0] + om[i,1,1] + om[i,2,2]
@@ -726,6 +726,8 @@ def om2quL(om, p=P):
         qu[i,1] = (om[i,0,2] + om[i,2,0]) / s
         qu[i,2] = (om[i,1,2] + om[i,2,1]) / s
         qu[i,3] = 0.25 * s
+    for j in range(3):
+      qu[i,j+1] *= pf
   qu = quatnormL(qu)
   return qu
 
-- 
2.43.0


From 52e74596a9702c1fc2a05e289ff2730a6135c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 08/57] fix: trigonal phases accept four-index reflectors like
 hexagonal ones

---
 pyebsdindex/tripletvote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..673338f 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -324,7 +324,7 @@ class BandIndexer():
     crystalmats = self.crystalmats
 
     poles = np.array(self.polefamilies)
-    if (self.lauecode == 62) or (self.lauecode == 6):
+    if self.lauecode in (62, 6, 32, 3): # hexagonal and trigonal: four index notation allowed
       if self.polefamilies.shape[-1] == 4:
         poles = crystal_sym.hex4poles2hex3poles(np.array(self.polefamilies))
     poles = poles.reshape((-1, 3))
-- 
2.43.0


From cf5eac087200b6afcfdc14b4509093f7b3fd3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 09/57] fix: PC optimisers convert EMsoft centres with the EDAX
 scaling that indexing uses

---
 pyebsdindex/pcopt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..3e999f6 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -128,7 +128,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
         PCtemp = PC0[0:3]
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
@@ -161,7 +161,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EMSOFT"
         indexer.PC = delta
         patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
@@ -270,11 +270,13 @@ def optimize_pso(
         emsoftflag = True
         indexer.vendor = "EDAX"
         delta = indexer.PC
+        patDim = np.array(indexer.bandDetectPlan.patDim)
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp = PC0[0:3]
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
+        PCtemp /= patdimnorm
         PCtemp[2] /= delta[3]
         PC0 = np.array(PCtemp)
 
@@ -337,7 +339,7 @@ def optimize_pso(
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:, :3] *= patdimnorm
             PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[:, 0] *= -1.0
             PCoutRet[:, 2] *= delta[3]
@@ -347,7 +349,7 @@ def optimize_pso(
         else:
             newout = np.zeros(4)
             PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:3] *= patdimnorm
             PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[0] *= -1.0
             PCoutRet[2] *= delta[3]
-- 
2.43.0


From 43a7642d7ea275d8ccfc25734a41d2c51639c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 10/57] fix: PC optimisers convert a copy of the start value,
 not the indexer's own PC

---
 pyebsdindex/pcopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 3e999f6..2f342c5 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -127,7 +127,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EDAX"
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64)
         patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
@@ -272,7 +272,7 @@ def optimize_pso(
         delta = indexer.PC
         patDim = np.array(indexer.bandDetectPlan.patDim)
         patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64)
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-- 
2.43.0


From 6683aee530ac9f7df7606482603c5c322905732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 11/57] fix: PC optimisers recognise the EMsoft vendor in any
 letter case, as indexing does

---
 pyebsdindex/pcopt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 2f342c5..d602c1d 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -122,7 +122,8 @@ def optimize(pats, indexer, PC0=None, batch=False):
     if PC0 is None:
         PC0 = indexer.PC
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor0 = indexer.vendor
+    if str.upper(vendor0) == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
         indexer.vendor = "EDAX"
         patDim = np.array(indexer.bandDetectPlan.patDim)
@@ -158,7 +159,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
             PCoutRet[i, :] = PCopt['x']
 
     if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
+        indexer.vendor = vendor0
         indexer.PC = delta
         patDim = np.array(indexer.bandDetectPlan.patDim)
         patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
@@ -266,7 +267,8 @@ def optimize_pso(
         PC0 = np.asarray(PC0)
 
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor0 = indexer.vendor
+    if str.upper(vendor0) == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
         indexer.vendor = "EDAX"
         delta = indexer.PC
@@ -334,7 +336,7 @@ def optimize_pso(
             print('', end='\n')
 
     if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
+        indexer.vendor = vendor0
         indexer.PC = delta
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
-- 
2.43.0


From c8a541b177ed9fe1040bae2781992d3d0f90f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 12/57] fix: tfpat files record whether they hold a scan, and
 step over 16-bit patterns

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..a6df510 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1118,7 +1118,8 @@ class TFPatFile(EBSDPatternFile):
         self.filePos = 25
 
 
-      if isscan < 0:
+      self.isscan = bool(isscan < 0)
+      if self.isscan:
         self.nPatterns = np.int64((self.nCols)) * self.nRows
       else:
         f.seek(0,2) # go to EOF
@@ -1131,7 +1132,7 @@ class TFPatFile(EBSDPatternFile):
     if self.isscan == False:
       xypix = []
       f.seek(self.filePos)
-      stride = np.int64(self.patternW * self.patternH)
+      stride = np.int64(self.patternW * self.patternH * self.filedatatype(0).nbytes)
       for ii in range(np.int64(self.nPatterns)):
         loc = np.fromfile(f, dtype=np.uint32, count=2)
         xypix.append(loc)
-- 
2.43.0


From 8da23d181de16e9cc634343a84c61ff1f66c5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 13/57] fix: tfpat headers store the background pattern that is
 set

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index a6df510..6e45121 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1257,7 +1257,7 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
+        if not isinstance(self.background, np.ndarray):
           pass
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
-- 
2.43.0


From 94197faacdc5ee4dfb05c9cebcc97e92d229c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 14/57] fix: blank tfpat files are long enough for their header
 and every pattern

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 6e45121..c979d56 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1271,7 +1271,7 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
+      f.seek(np.uint64(f.tell() + self.nPatterns * dtyperead.itemsize -1))
       np.asarray(0, dtype=np.uint8).tofile(f)
 
 
-- 
2.43.0


From 1e42c5bb9a8a06396a604756233f3204e291ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 15/57] fix: patterns written to a version 5 ebsp file go where
 they are read from

---
 pyebsdindex/ebsd_pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c979d56..25ac0a9 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1041,7 +1041,10 @@ class EBSPFile(EBSDPatternFile):
       if np.int64(self.filePos[i]) > 0:
         f.seek(np.int64(self.filePos[i]), 0)
         ii = np.int64(i - patStart)
-        pathead.tofile(f)
+        if self.version >= 5: # these headers are longer (see pat_reader); keep the one in the file
+          f.seek(24, 1)
+        else:
+          pathead.tofile(f)
         pat2write[ii, :, :].tofile(f)
         if write_xypos:
           if self.version >= 2:
-- 
2.43.0


From 78028879f550c30298ba31b027f048e8ed4cda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:13 +0000
Subject: [PATCH 16/57] fix: values stored in 32-bit pattern files are not
 clipped to 8 bits

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 25ac0a9..cefe096 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -145,6 +145,10 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     typeout = np.uint16
     minval = 0
     maxval = 65535
+  if (isinstance(typeout(0), np.uint32)):
+    typeout = np.uint32
+    minval = 0
+    maxval = 4294967295
 
 
   patsout = np.zeros(shp, dtype=typeout)
-- 
2.43.0


From dbffa9d06eba235fb318648b0002f18c7c6a63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 17/57] fix: copying a tfpat file copies it when no empty copy
 is asked for

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index cefe096..a654f74 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1347,6 +1347,7 @@ class TFPatFile(EBSDPatternFile):
       dst = Path(path[0]).expanduser().resolve()
     else:
       dst = Path(str(src.expanduser().resolve())+'.copy')
+    copied = False
     try:
       if 'empty_data' in kwargs:
         if kwargs['empty_data'] == True:
@@ -1360,7 +1361,10 @@ class TFPatFile(EBSDPatternFile):
             dstf.seek(size-1,0)
             #print('seek done')
             dstf.write(b"\0")
+          copied = True
     except:
+      pass
+    if not copied:
       shutil.copyfile(src,dst)
 
     try:
-- 
2.43.0


From 1e487a2392a28c1844b99efd3ee651a3dade051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 18/57] fix: finding out the kind of an HDF5 file opens it
 read-only and closes it

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index a654f74..af41c6f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -79,7 +79,7 @@ def get_pattern_file_obj(path,file_type=str('')):
     ebsdfileobj = HDF5PatFile(path) # if the path variable is a list,
     # the second item is set to be the hdf5 path to the patterns.
     try:
-      f = h5py.File(Path(pathtemp[0]).expanduser(),'r+')
+      f = h5py.File(Path(pathtemp[0]).expanduser(),'r')
     except:
       print("File Not Found:",str(Path(pathtemp[0])))
       return -1
@@ -100,6 +100,7 @@ def get_pattern_file_obj(path,file_type=str('')):
       vendor = str(vendor.decode('UTF-8'))
       if vendor >= 'kikuchipy':
         ebsdfileobj = KIKUCHIPYH5(path)
+    f.close()
     if ebsdfileobj.h5patdatpth is None: #automatically chose the first data group
       ebsdfileobj.get_data_paths()
       ebsdfileobj.set_data_path(pathindex=0)
-- 
2.43.0


From b996ac2864c3770087130bcbab580b62f05a5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 19/57] fix: pattern files are closed after reading their
 headers, step size and background

---
 pyebsdindex/ebsd_pattern.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index af41c6f..89ee880 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -763,6 +763,7 @@ class EBSPFile(EBSDPatternFile):
         patdata = np.fromfile(f, dtype=np.uint32, count=per_pat_header)
         if patdata[0] == 1:
           print("Sorry, compressed EBSP files are not supported")
+          f.close()
           return None
         patternW = np.int64(patdata[-2])
         patternH = np.int64(patdata[-3])
@@ -794,6 +795,7 @@ class EBSPFile(EBSDPatternFile):
 
       if patdata[0] == 1:
         print("Sorry, compressed EBSP files are not supported")
+        f.close()
         return None
 
       #print(loc0, patdata)
@@ -1177,6 +1179,7 @@ class TFPatFile(EBSDPatternFile):
 
     f.seek(-45, 2)
     step = np.fromfile(f, dtype=np.float64, count=1)
+    f.close()
     if (step > 0) and (step < 2000): # reason here is pretty broad.
       self.xStep = step[0]
       self.yStep = step[0]
@@ -1334,6 +1337,7 @@ class TFPatFile(EBSDPatternFile):
     typeread = self.filedatatype
     typebyte = self.filedatatype(0).nbytes
     background = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
+    f.close()
     background = background.reshape(self.patternH, self.patternW)
     return background # note multiple returns used in this function.
 
@@ -1564,6 +1568,7 @@ class HDF5PatFile(EBSDPatternFile):
         self.nCols = np.uint64(1)
       if self.nRows is None:
         self.nRows = np.uint64(np.floor(self.nPatterns/self.nCols))
+    f.close()
 
 class EDAXOH5(HDF5PatFile):
   def __init__(self, path=None):
@@ -1618,6 +1623,7 @@ class EDAXOH5(HDF5PatFile):
       self.xStep = np.float32(headerpath['Step X'][()][0])
       self.yStep = np.float32(headerpath['Step Y'][()][0])
 
+    f.close()
     return 0 #note this function uses multiple returns
 
 class KIKUCHIPYH5(HDF5PatFile):
@@ -1673,6 +1679,7 @@ class KIKUCHIPYH5(HDF5PatFile):
       self.xStep = np.float32(headerpath['step_x'][()][0])
       self.yStep = np.float32(headerpath['step_y'][()][0])
 
+    f.close()
     return 0 #note this function uses multiple returns
 
 
@@ -1728,6 +1735,7 @@ class BRUKERH5(HDF5PatFile):
       self.xStep = np.float32(headerpath['XSTEP'][()])
       self.yStep = np.float32(headerpath['YSTEP'][()])
 
+    f.close()
     return 0 #note this function uses multiple returns
 
 class OXFORDOINA(HDF5PatFile):
@@ -1816,6 +1824,7 @@ class OXFORDOINA(HDF5PatFile):
       self.xStep = np.float32(headerpath['X Step'][()][0])
       self.yStep = np.float32(headerpath['Y Step'][()][0])
 
+    f.close()
     return 0 #note this function uses multiple returns
 
   def pat_reader(self, patStart=0, nPatToRead=1):
-- 
2.43.0


From 6aeaa2773a61d9f4d969a078818cad217b65c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 20/57] fix: ebsp headers can be written for a version given as
 a plain integer

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 89ee880..3795a36 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -974,7 +974,7 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
+      version = np.uint64(np.int64(-self.version))
       np.asarray(version, dtype=np.uint64).tofile(f)
 
     if self.version >= 0:
-- 
2.43.0


From 3dfc2255f371ccab29f519322e2e17c80ddfc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 21/57] fix: negative patstart counts from the end and npats is
 clamped in index_pats_distributed

---
 pyebsdindex/_ebsd_index_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..52696bf 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,8 +275,8 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
-    if npats <= 0:
+        patstart = npatsTotal + patstart
+    if npats <= 0 or npats > npatsTotal - patstart:
         npats = npatsTotal - patstart
 
     # Now set up the cluster with the indexer
-- 
2.43.0


From dbbae5bbaaa08fa503f3c27042eed90d0d63febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 22/57] fix: a chunk whose GPU worker reports an error is
 indexed again

---
 pyebsdindex/_ebsd_index_parallel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 52696bf..3d345a1 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -535,6 +535,8 @@ def index_pats_distributed(
 
                         cpujobs.append(CPUGPUJob(gjob.jobid, gjob.pstart, gjob.pend, extime=gjob.extime))
                         ngpudone += 1
+                    else: # the worker reported a failure: requeue the job below
+                        raise Exception("Error in GPU processing patterns")
 
                     if len(gpujobs) > 0: # still more gpu work to do
                         gjob = gpujobs.pop(0)
-- 
2.43.0


From 2d30a6337c8261258d76d55871eca80e249b72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 23/57] fix: a chunk of a stuck GPU worker is resubmitted only
 once

---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 3d345a1..20927f2 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -619,6 +619,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From 633a7de15fde1ebe77244015307e10fc4b2c2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 24/57] fix: index_pats_distributed uses the file of the given
 indexer when no input is passed

---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 20927f2..69cfd76 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -245,7 +245,7 @@ def index_pats_distributed(
 
     if filename is not None:
         indexer.update_file(filename)
-    else:
+    elif pats is not None:
         indexer.update_file(patDim=pats.shape[-2:])
 
     # Differentiate between getting a file to index or an array.
-- 
2.43.0


From 1913d419684c6e00cf8616cdbd519836a9fa606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 25/57] fix: BandDetect accepts a pattern mask together with
 pattern dimensions

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..d98c720 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -118,11 +118,11 @@ class BandDetect():
         self.patDim = np.asarray(patDim)
       patternmask = None
       if 'patternmask' in kwargs :
-        self.patternmask = kwargs.get('patternmask')
+        self.patternmask = kwargs.pop('patternmask')
 
       patternmaskindex = None
       if 'patternmaskindex' in kwargs:
-        patternmaskindex = kwargs.get('patternmaskindex')
+        patternmaskindex = kwargs.pop('patternmaskindex')
       #print(patternmask)
       self.band_detect_setup(patterns, self.patDim,self.nTheta,self.nRho,\
                              self.tSigma, self.rSigma,self.rhoMaskFrac,self.nBands,
-- 
2.43.0


From 4c97e40cf0537a3a58eadcbfcbae9ad0ada10d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 26/57] fix: a pattern mask, mask index or rho mask given to
 band_detect_setup takes effect

---
 pyebsdindex/band_detect.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index d98c720..36e7abe 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -101,6 +101,7 @@ class BandDetect():
     self.EDAXIQ = False
     self.backgroundsub = None
     self.patternmask = None
+    self.patternmaskindex = None
     self.useCPU = True
 
     self.dataType = np.dtype([('id', np.int32), ('max', np.float32), ('normmax', np.float32),
@@ -167,7 +168,16 @@ class BandDetect():
 
     if patternmask is not None:
       self.patternmask = patternmask
+      recalc_radon = True
+
+    if patternmaskindex is not None:
+      self.patternmaskindex = patternmaskindex
+      recalc_radon = True
 
+    if rhoMaskFrac is not None:
+      self.rhoMaskFrac = rhoMaskFrac
+      recalc_radon = True
+      recalc_masks = True
 
     #recalc_radon = True
     if recalc_radon == True:
@@ -182,7 +192,7 @@ class BandDetect():
       self.radonPlan = radon_fast.Radon(imageDim=self.patDim,
                                         nTheta=self.nTheta, nRho=self.nRho,
                                         rhoMax=self.rhoMax,
-                                        mask=self.patternmask, maskindex=patternmaskindex)
+                                        mask=self.patternmask, maskindex=self.patternmaskindex)
 
       if self.patternmask is not None:
         back = np.array(self.patternmask > 0).astype(np.float32)
@@ -244,9 +254,6 @@ class BandDetect():
       self.rSigma = rSigma
       recalc_masks = True
 
-    if rhoMaskFrac is not None:
-      self.rhoMaskFrac = rhoMaskFrac
-      recalc_masks = True
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
-- 
2.43.0


From b561c478fad2882b86d27688311029283bf21015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 27/57] fix: index_pats applies patstart and npats to arrays

---
 pyebsdindex/_ebsd_index_single.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..3a57ec4 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,14 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if patsin is not None and len(patsin.shape) > 2:
+            # the requested range applies to arrays as well
+            if patstart < 0:
+                patstart = patsin.shape[0] + patstart
+            if patstart > 0 or npats > 0:
+                patend = patstart + npats if npats > 0 else patsin.shape[0]
+                patsin = patsin[patstart:patend, :, :]
+
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From 2da9ecd8d190bbd7b4eb10a7b9ff67c5a8ce2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 28/57] fix: writeoh5 works out the number of rows from a given
 number of columns

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..ccf4527 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From 5ecf0de252ca9d38d797c435ed3eb7e4229907b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 29/57] fix: writeoh5 marks unindexed points in every file
 version, and not in the data of the caller

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index ccf4527..9a2e50d 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = data[-1]['cm'].copy() # do not change the data of the caller
+      wh = np.nonzero(data[-1]['phase'] < 0)[0] # these are unindexed points.
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From ed41690a017c52cd57b364f7c7f66982cb8c8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 30/57] fix: writeoh5 stores one position per point when the
 scan is not a full rectangle

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 9a2e50d..35c9ce6 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -272,8 +272,8 @@ def writeoh5(filename, indexer, data,
       f.create_dataset(datasetname + '/EBSD/Data/CI',
                        data=(ci).astype(np.float32))
 
-      x = (np.arange(ncols[0] * nrows[0], dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
-      y = (np.arange(ncols[0] * nrows[0], dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
+      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
+      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
 
       f.create_dataset(datasetname + '/EBSD/Data/X Position', data=x)
       f.create_dataset(datasetname + '/EBSD/Data/Y Position', data=y)
-- 
2.43.0


From 71311f89b2b635cd7268d26b96e6148a7cf6f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 31/57] fix: the best solution of a pattern is taken from the
 phases that have one

---
 pyebsdindex/_ebsd_index_single.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 3a57ec4..a1dd9f5 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -794,6 +794,8 @@ class EBSDIndexer:
                 #    indxData[j + 1, :],
                 phasetest = ((3.0 - indxData[j, :]["fit"]) * indxData[j, :]["nmatch"]) \
                             > ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])
+                # a phase without a solution is never the best, any solution is better than none.
+                phasetest = (indxData[j, :]["phase"] >= 0) & (phasetest | (indxData[-1, :]["phase"] < 0))
                 whbetter = np.nonzero(phasetest)
                 indxData[-1, whbetter] = indxData[j, whbetter]
                 #banddataout['band_match_index'][whbetter,:] =  bandmatchindex[j,whbetter,:,:].squeeze()
-- 
2.43.0


From 11873ed4cbe491fe7a7df295d3dde2d8813b4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 32/57] fix: an inverse pole figure map can be made of a single
 point

---
 pyebsdindex/EBSDImage/IPFcolor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..9af24bd 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
@@ -110,10 +110,10 @@ def qu2ipf_cubic(quats, vector=np.array([0,0,1.0])):
 def ipf_color_cubic(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,shp[0]))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
@@ -258,10 +258,10 @@ def qu2ipf_hex(quats, vector=np.array([0,0,1.0])):
 def ipf_color_hex(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,shp[0]))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv[xstalv[:, 2] < 0, :] *= -1
-- 
2.43.0


From 426ece866367ab613856ee15bb9911e489090257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 33/57] fix: cubic inverse pole figure colours do not depend on
 the length of the direction

---
 pyebsdindex/EBSDImage/IPFcolor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index 9af24bd..6df66ca 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -115,6 +115,7 @@ def ipf_color_cubic(xstalvect):
     xstalv = np.copy(xstalvect)
   npoints = xstalv.shape[0]
 
+  xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
   # project to sterographic triangle
-- 
2.43.0


From af3ce55ca4fb1ba8827f2ee0e4ed27a37bc0032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 34/57] fix: update_file does not write into its default or
 given pattern dimensions

---
 pyebsdindex/_ebsd_index_single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index a1dd9f5..4d4cb83 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -431,7 +431,7 @@ class EBSDIndexer:
             self.fID = filename
             if self.fID.patternH is None:
                 self.fID.read_header()
-            patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
+            patDim = np.array([self.fID.patternH, self.fID.patternW])
 
             self.filein = filename.filepath   
         else:
@@ -439,7 +439,7 @@ class EBSDIndexer:
             self.fID = ebsd_pattern.get_pattern_file_obj(self.filein)
             if self.fID.patternH is None:
                 self.fID.read_header()
-            patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
+            patDim = np.array([self.fID.patternH, self.fID.patternW])
 
         if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
-- 
2.43.0


From 05aba516df683e7120ff11bbe51096ef62fa24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 35/57] fix: misorientation imports rotlib from the package

---
 pyebsdindex/misorientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/misorientation.py b/pyebsdindex/misorientation.py
index cf4df04..7442df9 100644
--- a/pyebsdindex/misorientation.py
+++ b/pyebsdindex/misorientation.py
@@ -42,7 +42,7 @@ tempdir = tempdir.joinpath('.pyebsdindex').joinpath('numbacache')
 Path(tempdir).mkdir(parents=True, exist_ok=True)
 os.environ["NUMBA_CACHE_DIR"] = str(tempdir)+str(os.sep)
 
-import rotlib
+from pyebsdindex import rotlib
 
 def misorientcubic_quick(q1,q2):
   '''Misorientation between two cubic crystals using the quaternion trick from Sutton and Buluffi'''
-- 
2.43.0


From 9711a97d83c2d9c2fd082d19ccb566cf37f8d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 36/57] fix: the list of planes does not use a name NumPy has
 removed

---
 pyebsdindex/crystallometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index fd61d79..3910e0f 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -183,7 +183,7 @@ class Crystal:
             print('generating list')
             g = [0,0,0]
             g0 = CrystalPlane(g,'F')
-            g0.d = np.Infinity
+            g0.d = np.inf
             g0.g = 0.0
             # g0
             gVectorList.append(g0)
-- 
2.43.0


From 6fe3625d092612626d8b8e0eeea5f99d87b85a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 37/57] fix: the pair library does not use a name NumPy has
 removed

---
 pyebsdindex/pairlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pairlib.py b/pyebsdindex/pairlib.py
index ca19b51..b355190 100644
--- a/pyebsdindex/pairlib.py
+++ b/pyebsdindex/pairlib.py
@@ -165,7 +165,7 @@ class pairlib():
     #print(libANG.shape)
     angTable = self.calc_pole_dot(sympolesComplete,sympolesComplete)
     angTable = np.arccos(angTable)*RADEG
-    famindx0 = ((np.concatenate( ([0],np.cumsum(nFamComplete)) ))[0:-1]).astype(dtype=np.int)
+    famindx0 = ((np.concatenate( ([0],np.cumsum(nFamComplete)) ))[0:-1]).astype(dtype=int)
     cartPoles = self.xstalplane2cart(sympolesComplete)
     cartPoles /= np.linalg.norm(cartPoles, axis = 1).reshape(int(cartPoles.size/3),1)
     self.completelib = {
-- 
2.43.0


From f266fae7bdc008b9b4d4fd333e74a91f19b1b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 38/57] fix: pair voting takes its library from the indexer it
 belongs to

---
 pyebsdindex/tripletvote.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 673338f..aaf511a 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -794,7 +794,7 @@ class BandIndexer():
 
   def _refine_orientation(self, bandnorms, whGood, polematch):
     tic = timer()
-    poles = self.tripLib.completelib['polesCart']
+    poles = self.completelib['polesCart']
     nGood = whGood.size
     n2Fit = np.int64(np.prod(np.arange(2)+(nGood-2+1), dtype=int)//np.int64(2))
     whGood = np.asarray(whGood,dtype=np.int64)
@@ -1571,7 +1571,7 @@ class BandIndexer():
 
   def pairVoteOrientation(self,bandnormsIN,goNumba=True):
     tic0 = timer()
-    nfam = self.tripLib.polefamilies.shape[0]
+    nfam = self.polefamilies.shape[0]
     bandnorms = np.squeeze(bandnormsIN)
     n_bands = np.int64(bandnorms.size / 3)
 
@@ -1579,15 +1579,15 @@ class BandIndexer():
     bandangs = np.clip(bandangs,-1.0,1.0)
     bandangs = np.arccos(bandangs) * RADEG
 
-    angTable = self.tripLib.completelib['angTable']
+    angTable = self.completelib['angTable']
     sztable = angTable.shape
     whGood = -1
-    famIndx = self.tripLib.completelib['famIndex']
-    nFam = self.tripLib.completelib['nFamily']
-    poles = self.tripLib.completelib['polesCart']
+    famIndx = self.completelib['famIndex']
+    nFam = self.completelib['nFamily']
+    poles = self.completelib['polesCart']
     angTableReduce = angTable[famIndx,:]
     polesReduce = poles[famIndx,:]
-    qsym = self.tripLib.qsymops
+    qsym = self.qsymops
     tic = timer()
 
 
-- 
2.43.0


From 4d9730c838aeaf1fe0d7be7fe6344ff44d3c8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 39/57] fix: even sampling of a file for the background

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 36e7abe..d87ddbc 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -323,7 +323,7 @@ class BandDetect():
         stride = np.sort(stride)
       elif method.upper() == 'EVENSTRIDE':
         step = int(npats / nsample) # not great, but maybe good enough.
-        stride = np.arange(0,npats, step, dypte = np.uint64)
+        stride = np.arange(0,npats, step, dtype = np.uint64)
       pat1 = fileobj.read_data(convertToFloat=True,patStartCount=[stride[0], 1],returnArrayOnly=True)[0]
       for i in stride[1:]:
         pat1 += fileobj.read_data(convertToFloat=True,patStartCount=[i, 1],returnArrayOnly=True)[0]
-- 
2.43.0


From 490ec400ebf155d9dc7c7cd8150c11509bbe3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 40/57] fix: raw patterns of an OINA file are looked for when
 there are no processed ones

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3795a36..618f4f4 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1780,7 +1780,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      self.get_data_paths(verbose=False, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From e594ed877ff43fcef4314b0dad80eb61a17fa0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 41/57] fix: shut the Ray runtime down when multi-process NLPAR
 is done

---
 pyebsdindex/opencl/nlpar_clray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index dfd0382..20540ba 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -255,6 +255,7 @@ class NLPAR(nlpar_cl.NLPAR):
             ndone += 1
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
+    ray.shutdown()
     if verbose >= 2:
       print('\n', end='')
     return sigma, dist, countnn
@@ -573,6 +574,7 @@ class NLPAR(nlpar_cl.NLPAR):
                   jobqueue.append(job)
                   print(message)
 
+    ray.shutdown()
     if verbose >= 2:
       print('\n', end='')
     return str(self.patternfileout.filepath)
-- 
2.43.0


From 4c157e69c91019c4e26031025d649d7833faba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 42/57] fix: NLPAR's centre offset buffer is private to each
 pattern

diff_step was allocated once, outside the prange over columns, and written by
every thread: threads raced on it, and with a non-zero diff_offset the offset
accumulated from row to row.
---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..297457b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -677,7 +677,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
 
     mxval = np.max(data)
     if saturation_protect == False:
@@ -693,6 +692,7 @@ class NLPAR:
         winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
 
         weights = np.zeros(winsz,dtype=np.float32)
+        diff_step = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
 
         indx_0 = i + ncols * j
-- 
2.43.0


From 75953cafcc116be388647adb6458da61bd7042d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 43/57] fix: CPU NLPAR noise estimate works with a signed
 search width

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 297457b..a5fb649 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -485,7 +485,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
-- 
2.43.0


From 27e331ec70a205b4cd644a0aea48be45bc472d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 44/57] fix: noise estimate of rows covered by two chunks is
 not added up twice

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index a5fb649..64ffc77 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -518,7 +518,7 @@ class NLPAR:
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-      sigma[j:j+rowstartcount[1],:] += \
+      sigma[j:j+rowstartcount[1],:] = \
         sigchunk[rowstartcount[0]:rowstartcount[0]+rowstartcount[1],:]
 
     return sigma
-- 
2.43.0


From 7a174444348ae97eb279ce3b8f861907b04ce3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 45/57] fix: NLPAR search window stays inside scans smaller
 than the window

---
 pyebsdindex/nlpar_cpu.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 64ffc77..7283086 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -684,12 +684,12 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      winstart_x = max(max((i - sr),0) - max((i + sr - (ncols - 1)),0),0)
+      winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max(max((j - sr),0) - max((j + sr - (nrows - 1)),0),0)
+        winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         diff_step = np.zeros(winsz,dtype=np.float32)
@@ -734,14 +734,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From 8ad88d058064183f7ca847556bbb6847b9acd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 46/57] fix: the first NLPAR chunks are read with all the rows
 of their search window

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7283086..c9906d8 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -410,7 +410,7 @@ class NLPAR:
         print("begin row: ", j, "/", nrows, sep='', end='\r')
 
       rowstartread = np.int64(max(0, j-sr))
-      rowend = min(j + chunksize+sr,nrows)
+      rowend = min(max(j + chunksize+sr, 2*sr+1),nrows)
 
       if (rowend - rowstartread) < (2*sr+1):
         rowstartread = np.int64(max(0, rowend - (2*sr+1)))
-- 
2.43.0


From bf338e4f811df56415e80ca02c575829ecda0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 47/57] fix: NLPAR tiles begin inside the scan and leave no gap
 between them

---
 pyebsdindex/nlpar_cpu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index c9906d8..00afc32 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -764,16 +764,20 @@ class NLPAR:
     ncolchunks = max(ncol / colstep, 1)
     colstepov = min(colstep + 2 * col_overlap, ncol)
     ncolchunks = max(int(np.ceil(ncolchunks)), 1)
-    colstep = max(int(np.round(colstep)), 1)
+    colstep = max(int(np.round(colstep)), col_overlap + 1) # a tile begins inside the scan
     colstepov = min(colstep + 2 * col_overlap, ncol)
+    if colstepov >= ncol: # one tile holds the whole scan
+      ncolchunks = 1
 
     nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
     rowstep = max((nrow / nrowchunks), 1)
     nrowchunks = max(nrow / rowstep, 1)
     rowstepov = min(rowstep + 2 * row_overlap, nrow)
     nrowchunks = max(int(np.ceil(nrowchunks)), 1)
-    rowstep = max(int(np.round(rowstep)), 1)
+    rowstep = max(int(np.round(rowstep)), row_overlap + 1)
     rowstepov = min(rowstep + 2 * row_overlap, nrow)
+    if rowstepov >= nrow:
+      nrowchunks = 1
 
     # colchunks = np.round(np.arange(ncolchunks+1)*ncol/ncolchunks).astype(int)
     # colchunks = np.zeros((ncolchunks, 2), dtype=int)
-- 
2.43.0


From 136a4588626c93bc501cf6829bb601cd8d09cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 48/57] fix: tiles of the GPU noise estimate overlap by the
 search radius

---
 pyebsdindex/opencl/nlpar_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 1796ed6..b670a1b 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -180,7 +180,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     npat_point = int(pwidth * pheight)
     #print(target_mem)
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=1, row_overlap=1)
+                              col_overlap=nn, row_overlap=nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight, pwidth))
-- 
2.43.0


From 633e669168f32c92ae8b8a707a0588eb3dffaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 49/57] fix: a failed NLPAR tile is processed again and counted
 once

---
 pyebsdindex/opencl/nlpar_clray.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 20540ba..b5cd2aa 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -227,6 +227,8 @@ class NLPAR(nlpar_cl.NLPAR):
         for tsk in donetasks:
           indx = tasks.index(tsk)
           message, job, newdata = ray.get(tsk)
+          tasks.remove(tsk)
+          idlewrker.append(busywrker.pop(indx))
           if message == 'Done':
 
             sigmachunk = newdata[0]
@@ -250,9 +252,10 @@ class NLPAR(nlpar_cl.NLPAR):
                                                                                                 nnn)
             sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
 
-            idlewrker.append(busywrker.pop(indx))
-            tasks.remove(tsk)
             ndone += 1
+          else: #An error has occured ... hopefully just need a re-process.
+            jobqueue.append(job)
+            print(message)
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
     ray.shutdown()
@@ -564,9 +567,9 @@ class NLPAR(nlpar_cl.NLPAR):
             for tsk in donetasks:
                 indx = tasks.index(tsk)
                 message, job, newdata = ray.get(tsk)
+                tasks.remove(tsk)
+                idlewrker.append(busywrker.pop(indx))
                 if message == 'Done':
-                  idlewrker.append(busywrker.pop(indx))
-                  tasks.remove(tsk)
                   ndone += 1
                   if verbose >= 2:
                     print("tiles complete: ", ndone, "/", njobs, sep='', end='\r')
-- 
2.43.0


From 94bd1b3fa6589c82e1612a107d2725d80c568fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 50/57] fix: GPU NLPAR weights use the noise estimate of the
 neighbour

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4dcd022..2c4bc2e 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -381,7 +381,7 @@ __kernel void calcnlpar(
                 
                 indx_ij = (indx_ij + indx_j);
                 
-                sigma_ij = sigma[indx_xy];
+                sigma_ij = sigma[indx_ij];
                 sigma_ij *= sigma_ij; 
                 nn = n[count]; 
                 dd -= nn*(sigma_ij+sigma0);
-- 
2.43.0


From 86f6fe86ea9a8a2b805a52c3296258f727e4a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 51/57] fix: GPU NLPAR adds the centre offset once

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 2c4bc2e..6ca76f9 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -345,7 +345,7 @@ __kernel void calcnlpar(
               dd = sum16(&d1);
               if (indx_ij == indx0) {
                 dd = -1.0;
-                diff_step[count] +=  diff_offset;
+                diff_step[count] =  diff_offset;
               } else{
                 dd = dd;
                 diff_step[count] = 0.0; //diff_offset;
-- 
2.43.0


From 754bc1b06df460c30cbd1f9b5e8dde6d6da68c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 52/57] fix: GPU NLPAR search window stays inside scans smaller
 than the window

---
 pyebsdindex/opencl/clnlpar.cl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 6ca76f9..bdab62e 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -145,12 +145,14 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j >= 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){      
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
@@ -228,12 +230,14 @@ __kernel void normd(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j >= 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){  
               
                indx_ij =  (i >= 0) ? (i): abs(i);
                indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+               indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;
                indx_ij =  (indx_ij + indx_j);
                sigma_ij = sigma[indx_ij];
                sigma_ij *= sigma_ij;
@@ -319,12 +323,14 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j >= 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;
               
               indx_ij = (indx_ij + indx_j);
               
@@ -370,6 +376,7 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j >= 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
@@ -378,6 +385,7 @@ __kernel void calcnlpar(
               if (dd > 1.e-3){
                 indx_ij =  (i >= 0) ? (i): abs(i);
                 indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+                indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;
                 
                 indx_ij = (indx_ij + indx_j);
                 
@@ -427,12 +435,14 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j >= 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;
               
               indx_ij = (indx_ij + indx_j);
               
-- 
2.43.0


From 56bcd248b19894d32582d5b52eb35de0a1ac8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 53/57] fix: GPU NLPAR does not write past the end of a pattern

---
 pyebsdindex/opencl/clnlpar.cl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index bdab62e..315a5d5 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -284,7 +284,7 @@ __kernel void calcnlpar(
   //printf("%d\n", indx_xy);
   const long indx0 = npatpoint * indx_xy;
   //printf("%d, %d, %d, %d\n", x,y,ncol, nrow); 
-  long i, j, z;
+  long i, j, z, q;
   long indx_j, indx_ij, count; 
 
   long nnn = (2*sr+1) * (2*sr+1);
@@ -455,7 +455,13 @@ __kernel void calcnlpar(
               d1 *= (float16) d[count]; 
               d1 *= mask0; 
               
-              *(__global float16*) (dataout + indx0+16*z) += d1; 
+              if (16*(z+1) <= npatpoint){
+                *(__global float16*) (dataout + indx0+16*z) += d1; 
+              } else { // the end of the pattern, do not write into the next one.
+                for (q = 0; q < npatpoint - 16*z; ++q){
+                  dataout[indx0+16*z+q] += ((float *) &d1)[q];
+                }
+              }
               
               //writeadd16(&(dataout[indx0+16*z]), &d1 );
 
-- 
2.43.0


From f2ad4a2bf2ab294b17332f1f4be034613e251bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 54/57] fix: GPU NLPAR pattern buffers hold the last vector of
 the last pattern

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index b670a1b..83d2fca 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -206,7 +206,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     #return chunks, chunksize
     mxchunk = chunksize.max()
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -443,7 +443,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     mxchunk = np.int64(chunksize.max())
     # print("max chunk:" , mxchunk)
 
-    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen))
+    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index b5cd2aa..fdc3ca7 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -303,7 +303,7 @@ class NLPAR(nlpar_cl.NLPAR):
     #return chunks, chunksize
     mxchunk = data.shape[0]
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -629,7 +629,7 @@ class NLPAR(nlpar_cl.NLPAR):
     npat_point = int(shpdata[-1]*shpdata[-2])
     npat = shpdata[0]
 
-    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen) + 1)
     data_gpu = cl.Buffer(ctx, mf.READ_ONLY| mf.COPY_HOST_PTR, hostbuf=data)
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
-- 
2.43.0


From f49ae8181aab7f921e690bb5a9f509975facbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 55/57] fix: GPU band detection falls back to the CPU when the
 device cannot be set up

---
 pyebsdindex/opencl/band_detect_cl.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 5a3fcd0..0c30e68 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -55,15 +55,15 @@ class BandDetect(band_detect.BandDetect):
     if useCPU == True:
       return band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)
 
-    if clparams is None:
-      clparams = openclparam.OpenClParam()
-      clparams.get_queue(gpu_id=gpu_id)
-    #if clparams is None:
-    #  print('noclparams')
-    #else:
-    #  print(type(clparams.queue))
-
     try:
+      if clparams is None:
+        clparams = openclparam.OpenClParam()
+        clparams.get_queue(gpu_id=gpu_id)
+      #if clparams is None:
+      #  print('noclparams')
+      #else:
+      #  print(type(clparams.queue))
+
       tic0 = timer()
       tic = timer()
       ndim = patternsIn.ndim
-- 
2.43.0


From aed3ea8061c17bef5e5ac1159d0f45e522f5ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 56/57] fix: ebsd_index exports index_pats_distributed only
 when Ray is installed

---
 pyebsdindex/ebsd_index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_index.py b/pyebsdindex/ebsd_index.py
index 1eaf443..8ce8ea4 100644
--- a/pyebsdindex/ebsd_index.py
+++ b/pyebsdindex/ebsd_index.py
@@ -32,5 +32,7 @@ if _ray_installed:
 __all__ = [
     "EBSDIndexer",
     "index_pats",
-    "index_pats_distributed",
 ]
+
+if _ray_installed:
+    __all__.append("index_pats_distributed")
-- 
2.43.0


From a3dadddb76ff457189c72be4a8078c887a9f4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 57/57] fix: indexing leaves the indexer's nband_earlyexit
 setting as it was

---
 pyebsdindex/_ebsd_index_single.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 4d4cb83..cd54810 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -723,7 +723,6 @@ class EBSDIndexer:
                     earlyexit = max(earlyexit, ph.nband_earlyexit)
             if earlyexit < 0:
                 earlyexit = shpBandDat[1]  # default to all the poles.
-            self.nband_earlyexit = earlyexit
         else:
             earlyexit = self.nband_earlyexit
 
-- 
2.43.0

