From b5aafac48311886ed53843934a1a588dbe3cef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 01/43] fix: skip blank and comment-only lines when reading a
 .tvel model

---
 taupy/VelocityModel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..c1e5f2e 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -333,10 +333,14 @@ class VelocityModel(object):
             f.readline()
             f.readline()
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
-            line = line.rstrip()  # or just .strip()?'
-            columns = line.split()
+            columns = []
+            for line in f:
+                line = line.partition('#')[0]
+                line = line.rstrip()  # or just .strip()?'
+                columns = line.split()
+                # Skip blank lines and lines that only hold a comment.
+                if columns:
+                    break
             topDepth = float(columns[0])
             topPVel = float(columns[1])
             topSVel = float(columns[2])
@@ -355,6 +359,9 @@ class VelocityModel(object):
                 # needs the other comment options
                 line = line.rstrip()  # or just .strip()?'
                 columns = line.split()
+                if not columns:
+                    # blank line or only a comment
+                    continue
                 botDepth = float(columns[0])
                 botPVel = float(columns[1])
                 botSVel = float(columns[2])
-- 
2.43.0


From 943fc2530fadf471e74520c2a86aa96ac45ad23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 02/43] fix: do not share the list of artificial depths between
 tau models

---
 taupy/TauModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..cdb151f 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,9 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        # noDisconDepths starts out as a class attribute: appending to it in
+        # place would change every other model as well.
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 4045fe40063477557e13f0daf57c6a7a835d0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 03/43] fix: a source next to a boundary must not alter the
 slowness model

---
 taupy/SlownessModel.py | 4 ++--
 taupy/TauModel.py      | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..12a436a 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1299,7 +1299,7 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1313,7 +1313,7 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index cdb151f..e27a558 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -201,6 +201,12 @@ class TauModel(object):
         if depth > self.radiusOfEarth:
             raise TauModelError("Can't depth correct to a source deeper than "
                                 "the radius of the Earth.")
+        # A source this close to a branch boundary is taken to be on it:
+        # splitLayer would only move that boundary.
+        for tb in self.tauBranches[0]:
+            for branchDepth in (tb.topDepth, tb.botDepth):
+                if abs(branchDepth - depth) < 0.000001:
+                    depth = branchDepth
         depthCorrected = self.loadFromDepthCache(depth)
         if depthCorrected is None:
             depthCorrected = self.splitBranch(depth)
-- 
2.43.0


From f5199b82517f7c9a99afc6f5b88909bf099e325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 04/43] fix: findBranch returned branch 1 for the centre of the
 Earth

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index e27a558..e36609a 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -348,7 +348,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From cdbba00a918519f276987bef2152bb68ee6dbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 05/43] fix: surface wave phases such as 3.5kmps raised a
 TypeError

---
 taupy/SeismicPhase.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..d2ff469 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -588,15 +588,6 @@ class SeismicPhase(object):
 
     def sumBranches(self, tMod):
         """Sum the appropriate branches for this phase."""
-        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
-            # Phase has no arrivals, possibly due to source depth.
-            self.rayParams = []
-            self.minRayParam = -1
-            self.maxRayParam = -1
-            self.dist = []
-            self.time = []
-            self.maxDistance = -1
-            return
         # Special case for surface waves.
         if self.name.endswith("kmps"):
             self.dist = [0, 0]
@@ -607,9 +598,19 @@ class SeismicPhase(object):
             self.time[1] = \
                 2 * math.pi * tMod.radiusOfEarth / float(self.name[:-4])
             self.rayParams[1] = self.rayParams[0]
+            self.minRayParam = self.rayParams[0]
+            self.maxRayParam = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
+            return
+        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
+            # Phase has no arrivals, possibly due to source depth.
+            self.rayParams = []
+            self.minRayParam = -1
+            self.maxRayParam = -1
+            self.dist = []
+            self.time = []
+            self.maxDistance = -1
             return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
-- 
2.43.0


From 940cfc7b6a0a185213111b9bdada99af219e502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 06/43] fix: reject surface wave phases without a positive
 velocity

---
 taupy/SeismicPhase.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index d2ff469..1a0fd3d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1100,6 +1100,13 @@ def legPuller(name):
     legs = []
     # Special case for surface wave velocity.
     if name.endswith("kmps"):
+        try:
+            velocity = float(name[:-4])
+        except ValueError:
+            velocity = 0
+        if not 0 < velocity < float("inf"):
+            raise TauModelError(
+                "Invalid surface wave velocity in {}.".format(name))
         legs.append(name)
     else:
         while offset < len(name):
-- 
2.43.0


From 8fbb74ad73624b4981c3740482dc1fb7d0da72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 07/43] fix: head wave travel time ignored the ray parameter

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 1a0fd3d..f937362 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -682,7 +682,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-- 
2.43.0


From 9199b3b0f51f8db7f0d22da51c1fe71f230e855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 08/43] fix: parse reflection legs and multi-digit depths in
 phase names

---
 taupy/SeismicPhase.py | 56 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f937362..2bce532 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -316,7 +316,7 @@ class SeismicPhase(object):
                     elif ((prevLeg.startswith("v") and
                                    disconBranch < closestBranchToDepth(tMod,
                                                                        prevLeg[
-                                                                           1])
+                                                                           1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +488,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1086,6 +1086,24 @@ def closestBranchToDepth(tMod, depthString):
     return disconBranch
 
 
+def depthPuller(name, offset):
+    """
+    Returns the number starting at the given offset of a phase name, as a
+    string. It is empty if there is no number there.
+    """
+    end = offset
+    while end < len(name) and (name[end].isdigit() or name[end] == "."):
+        end += 1
+    numString = name[offset:end]
+    if numString:
+        try:
+            float(numString)
+        except ValueError:
+            raise TauModelError("Invalid depth {} in phase name {}.".format(
+                numString, name))
+    return numString
+
+
 def legPuller(name):
     """
     Tokenizes a phase name into legs, ie PcS becomes 'P'+'c'+'S' while p^410P
@@ -1117,7 +1135,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1145,27 +1163,21 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                numString = depthPuller(name, offset + 1)
+                if any(name[offset + 1:offset + 2] == c
+                       for c in ("m", "c", "i")):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString = name[offset]
-                    offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
-                        numString += name[offset]
-                        offset += 1
-                    legs.append(numString)
+                elif numString:
+                    legs.append(nchar + numString)
+                    offset += 1 + len(numString)
                 else:
                     raise TauModelError("Invalid phase name {nchar} in {name}."
                                         .format(**locals()))
             elif nchar.isdigit() or nchar == ".":
-                numString = name[offset]
-                offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString += name[offset]
-                    offset += 1
+                numString = depthPuller(name, offset)
                 legs.append(numString)
+                offset += len(numString)
             else:
                 raise TauModelError(
                     "Invalid phase name {nchar} in {name}.".format(**locals()))
-- 
2.43.0


From 279dc5432e2527b05a4445f34accbae02550d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 09/43] fix: reject phase names whose legs do not form a
 connected path

---
 taupy/SeismicPhase.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 2bce532..4f9dfd3 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -213,6 +213,9 @@ class SeismicPhase(object):
         # sequence.
         currLeg = "START"  # So the prevLeg isn't wrong on the first pass.
         for legNum in range(len(self.legs) - 1):
+            if self.maxRayParam < 0:
+                # The legs so far are not possible for this source depth.
+                return
             prevLeg = currLeg
             currLeg = nextLeg
             nextLeg = self.legs[legNum + 1]
@@ -244,6 +247,15 @@ class SeismicPhase(object):
             if len(self.branchSeq) > 0 and isPWavePrev != isPWave:
                 self.phaseConversion(tMod, int(self.branchSeq[-1]),
                                      self.endAction, isPWavePrev)
+            # Legs must be in the part of the Earth they are named after.
+            if ((currLeg[0] in "PSps" and self.currBranch >= tMod.cmbBranch
+                 and (legNum > 0 or not isPWave)) or
+                (currLeg in ("K", "k") and not
+                 tMod.cmbBranch <= self.currBranch < tMod.iocbBranch) or
+                    (currLeg in ("I", "J") and
+                     self.currBranch < tMod.iocbBranch)):
+                raise TauModelError("Phase not recognized: {} after {}".format(
+                    currLeg, prevLeg))
             # Deal with p and s case first.
             if currLeg == "p" or currLeg == "s" or currLeg == "k":
                 if nextLeg.startswith("v"):
@@ -387,6 +399,10 @@ class SeismicPhase(object):
                         "Phase not recognized: {} followed by {}".format(
                             currLeg, nextLeg))
             elif currLeg.startswith("P") or currLeg.startswith("S"):
+                if nextLeg != "END" and nextLeg[0] not in "PSps":
+                    raise TauModelError(
+                        "Phase not recognized: {} followed by {}".format(
+                            currLeg, nextLeg))
                 if currLeg == "Pdiff" or currLeg == "Sdiff":
                     # In the diffracted case we trick addtoBranch into
                     # thinking we are turning, but then make maxRayParam
@@ -487,10 +503,18 @@ class SeismicPhase(object):
                 elif nextLeg == "K":
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
+                else:
+                    raise TauModelError(
+                        "Phase not recognized: {} followed by {}".format(
+                            currLeg, nextLeg))
             elif (any(currLeg == p for p in ("m", "c", "i"))
                   or currLeg.startswith("^")
                   or currLeg.startswith("v") or isLegDepth):
-                pass
+                # Handled with the previous leg; a ray must follow.
+                if nextLeg[0] not in "PSpsKkIJ":
+                    raise TauModelError(
+                        "Phase not recognized: {} followed by {}".format(
+                            currLeg, nextLeg))
             else:
                 raise TauModelError(
                     "Phase not recognized: {} followed by {}".format(currLeg,
@@ -538,6 +562,19 @@ class SeismicPhase(object):
         REFLECTTOP, REFLECTBOT, or TURN.
         """
         self.endAction = endAction
+        isDownGoing = endAction in (self.TURN, self.REFLECTBOT,
+                                    self.TRANSDOWN)
+        connected = (startBranch <= endBranch if isDownGoing
+                     else startBranch >= endBranch)
+        if self.branchSeq:
+            # The ray must go on in the direction the last action left it.
+            connected = connected and isDownGoing == (
+                self.legAction[-1] in (self.REFLECTTOP, self.TRANSDOWN))
+        if not connected:
+            # There is no such path, e.g. because the source is too deep.
+            self.minRayParam = -1
+            self.maxRayParam = -1
+            return
         if endAction == self.TURN:
             endOffset = 0
             isDownGoing = True
-- 
2.43.0


From a9767a31ff14111307bb18774425c8c58b44984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 10/43] fix: take-off angle of rays reflected at the source
 depth raised a domain error

---
 taupy/SeismicPhase.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4f9dfd3..8f9d17f 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1084,13 +1084,15 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+            # A ray totally reflected at the source depth can have a ray
+            # parameter beyond the slowness there: it leaves horizontally.
+            takeoffAngle = (180 / math.pi) * math.asin(max(-1.0, min(
+                1.0, takeoffVelocity * arrivalRayParam /
+                (self.tMod.radiusOfEarth - self.sourceDepth))))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+            incidentAngle = (180 / math.pi) * math.asin(min(
+                1.0, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
+                self.tMod.radiusOfEarth))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From 0c44279a3212534d6fd7ee34424607c3918685a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 11/43] fix: distance between coincident points could raise a
 domain error

---
 taupy/TauP_Time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..d1877ba 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -345,9 +345,11 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can take coincident or antipodal points just outside [-1, 1].
+    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From 9a6789e01cff536bce77e964ce82998de4845653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 12/43] fix: whole laps were reported twice at zero distance

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 8f9d17f..5959485 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -834,7 +834,8 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            # At 0 it is the first case of the next lap.
+            if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From 2914ec8c35678732ae2ab14223f8ccb6baf9f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 13/43] fix: use the radius of the model itself when converting
 velocity to slowness

---
 taupy/SlownessModel.py | 30 ++++++++++++++++--------------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 12a436a..5fc5d17 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -221,8 +223,8 @@ class SlownessModel(object):
                 fluidZone.botDepth = prevVLayer.botDepth
                 self.fluidLayerDepths.append(fluidZone)
 
-            currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -230,8 +232,8 @@ class SlownessModel(object):
                     or (belowOuterCore and self.allowInnerCoreS is False):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -591,8 +593,8 @@ class SlownessModel(object):
                     layer.layer_number, prevVLayer.botDepth,
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
-                currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -600,19 +602,19 @@ class SlownessModel(object):
                             and currVLayer.topDepth >= self.vMod.iocbDepth):
                     currSLayer = currPLayer
                 else:
-                    currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                    currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
-            currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(origVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
                     and origVLayer.topDepth >= self.vMod.iocbDepth):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(origVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index e36609a..80221b6 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From ef090e309deaeb1a08119ec0d3161557341e775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 14/43] fix: pierce point and ray path queries could not be
 made

---
 taupy/Arrival.py     |  4 ++--
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 4 files changed, 15 insertions(+), 29 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..38407ae 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..dbe8e4c 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        # This type conversion is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From 1ea00868805a9e152b6fd37c056620274ad83d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 15/43] fix: keep the order of requested phases and drop phases
 no longer requested

---
 taupy/TauP_Time.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index d1877ba..01b9ef2 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -116,7 +116,7 @@ class TauP_Time(object):
                 except TauModelError:
                     print("Error with this phase, skipping it: " +
                           str(tempPhaseName))
-            self.phases = newPhases
+        self.phases = newPhases
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
@@ -235,9 +235,12 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
-    return phaseNames
+    # Remove duplicates, but keep the order:
+    uniqueNames = []
+    for phaseName in phaseNames:
+        if phaseName not in uniqueNames:
+            uniqueNames.append(phaseName)
+    return uniqueNames
 
 
 def getPhaseNames(phaseName):
-- 
2.43.0


From 919f262d43c4b9f2804e01a9cbcb1d40a61796d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 16/43] fix: splitting a layer misplaced the samples added for
 the other wave type

---
 taupy/SlownessModel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 5fc5d17..c2e8cb2 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1377,7 +1377,12 @@ class SlownessModel(object):
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
+        else:
+            self.fixCriticalDepths(criticalDepths, otherIndex, isPWave)
+        numAdded = 0
         for otherLayerNum, sLayer in enumerate(out[:]):
+            # Layers were added above this one if numAdded is not zero.
+            otherLayerNum += numAdded
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1391,7 +1396,8 @@ class SlownessModel(object):
                 out.insert(otherLayerNum, topLayer)
                 # Fix critical layers since we have added a slowness layer.
                 self.fixCriticalDepths(criticalDepths, otherLayerNum,
-                                       not isPWave)
+                                       isPWave)
+                numAdded += 1
                 # Skip next layer as it was just added: achieved by slicing
                 # the list iterator.
 
-- 
2.43.0


From 663fd76b2b28b1c30dcc4d28470b67ca6625d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 17/43] fix: time and distance at the edge of a shadow zone
 were those of other rays

---
 taupy/SeismicPhase.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 5959485..b1fac22 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -724,8 +724,6 @@ class SeismicPhase(object):
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-        self.minDistance = min(self.dist)
-        self.maxDistance = max(self.dist)
         # Now check to see if our ray parameter range includes any ray
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
@@ -734,7 +732,6 @@ class SeismicPhase(object):
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
                 if self.maxRayParam > hszi.rayParam > self.minRayParam:
                     # There is a high slowness zone within our ray parameter
@@ -761,33 +758,35 @@ class SeismicPhase(object):
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
                         newrayParams.append(hszi.rayParam)
                         # Sum the branches with an appropriate multiplier.
+                        # Waves of this type turn above the zone, those of
+                        # the other type are not affected by it.
                         newdist.append(0)
                         newtime.append(0)
+                        modelIndex = tMod.rayParams.index(hszi.rayParam)
                         for tb, tbs, taub, taubs in zip(timesBranches[0],
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                            if tb != 0 and (not isPwave
+                                            or taub.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += \
+                                    tb * taub.dist[modelIndex]
+                                newtime[hszIndex] += \
+                                    tb * taub.time[modelIndex]
+                            if tbs != 0 and (isPwave
+                                            or taubs.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += \
+                                    tbs * taubs.dist[modelIndex]
+                                newtime[hszIndex] += \
+                                    tbs * taubs.time[modelIndex]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
+        self.minDistance = min(self.dist)
+        self.maxDistance = max(self.dist)
 
     def calcTime(self, degrees):
         """
-- 
2.43.0


From 178fa1891612e7bef13de496d7056bc4635360b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 18/43] fix: diffraction of pPdiff and the like was checked for
 the wrong wave type

---
 taupy/SeismicPhase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index b1fac22..64534cd 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -703,7 +703,7 @@ class SeismicPhase(object):
         if "Sdiff" in self.name or "Pdiff" in self.name:
             if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
                                              self.minRayParam,
-                                             self.name[0] == "P"):
+                                             "Pdiff" in self.name):
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
                 self.maxRayParam = -1
-- 
2.43.0


From f87b3a13480b96d80d24b8ea4e795a1361a2fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 19/43] fix: head and diffracted wave segments were placed by
 depth instead of by leg

---
 taupy/SeismicPhase.py | 94 +++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 62 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 64534cd..a19a433 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -104,6 +104,10 @@ class SeismicPhase(object):
         # check to make sure the path is correct.
         # Used in addToBranch() and parseName().
         self.downGoing = []
+        # Indices into branchSeq of the downgoing branches that are followed
+        # by a head or diffracted wave along the boundary they reach.
+        # Used in parseName().
+        self.headOrDiffractSeq = []
         # ArrayList of wave types corresponding to each leg of the phase.
         self.waveType = []
         # List containing strings for each leg.
@@ -413,6 +417,7 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch,
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
+                        self.headOrDiffractSeq.append(len(self.branchSeq) - 1)
                         self.maxRayParam = self.minRayParam
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
@@ -448,6 +453,8 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.headOrDiffractSeq.append(
+                                len(self.branchSeq) - 1)
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -899,9 +906,10 @@ class SeismicPhase(object):
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        headDepth, headDist = self.headOrDiffractedSegment(currArrival)
+        for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
+                                                      self.waveType,
+                                                      self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -945,9 +953,12 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
-        if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
-        elif "kmps" in self.name:
+            if i in self.headOrDiffractSeq:
+                branchDist += headDist
+                branchTime += headDist * currArrival.rayParam
+                pierce.append(TimeDist(distRayParam, branchTime, branchDist,
+                                       headDepth))
+        if "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
         currArrival.pierce = pierce
@@ -974,6 +985,7 @@ class SeismicPhase(object):
                                  0, 0, self.tMod.sourceDepth)]
         # pathList is a list of lists.
         pathList = [tempTimeDist]
+        headDepth, headDist = self.headOrDiffractedSegment(currArrival)
         for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
                                                       self.waveType,
                                                       self.downGoing):
@@ -986,28 +998,10 @@ class SeismicPhase(object):
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
             # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
-                headTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0]) / numFound
-                                   * currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
-                pathList.append(headTD)
+            if i in self.headOrDiffractSeq:
+                pathList.append([TimeDist(currArrival.rayParam,
+                                          headDist * currArrival.rayParam,
+                                          headDist, headDepth)])
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
             # distance.
@@ -1025,42 +1019,18 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def headOrDiffractedSegment(self, currArrival):
         """
-        Here we worry about the special case for head and diffracted
-        waves. It is assumed that a phase can be a diffracted wave or a
-        head wave, but not both. Nor can it be a head wave or diffracted
-        wave for both P and S.
+        Returns the depth and the distance of each of the segments along a
+        boundary if this is a head or diffracted wave. It is assumed that a
+        phase can be a diffracted wave or a head wave, but not both.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
-        else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
-            headDepth = self.tMod.mohoDepth
-        else:
-            headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
-        refractDist = currArrival.dist - self.dist[0]
-        refractTime = refractDist * currArrival.rayParam
-        out = []
-        j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
-            out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                td.distRadian + j * refractDist / numFound,
-                                td.depth))
-            if td.depth == headDepth:
-                j += 1
-                out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                    td.distRadian + j * refractDist / numFound,
-                                    td.depth))
-        return out
+        if not self.headOrDiffractSeq:
+            return None, 0
+        headDepth = self.tMod.cmbDepth if "diff" in self.name \
+            else self.tMod.mohoDepth
+        return headDepth, ((currArrival.dist - self.dist[0]) /
+                           len(self.headOrDiffractSeq))
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-- 
2.43.0


From 86988420d81df4d06ae40731794c02932184bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 20/43] fix: the arrival at the edge of a shadow zone was lost

---
 taupy/SeismicPhase.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index a19a433..dd73a01 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -823,8 +823,11 @@ class SeismicPhase(object):
             searchDist = n * 2 * math.pi + radDist
             for rayNum in range(len(self.dist) - 1):
                 if searchDist == self.dist[rayNum + 1] and \
-                                        rayNum + 1 != len(self.dist) - 1:
-                    # So we don't get 2 arrivals for the same ray.
+                                        rayNum + 1 != len(self.dist) - 1 \
+                        and self.rayParams[rayNum + 1] != \
+                        self.rayParams[rayNum + 2]:
+                    # So we don't get 2 arrivals for the same ray, except at
+                    # a shadow zone, which doesn't have arrivals of its own.
                     continue
                 elif (self.dist[rayNum] - searchDist) * (
                             searchDist - self.dist[rayNum + 1]) >= 0:
@@ -844,8 +847,11 @@ class SeismicPhase(object):
             if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
-                            and rayNum + 1 != len(self.dist) - 1:
-                        # So we don't get 2 arrivals for the same ray.
+                            and rayNum + 1 != len(self.dist) - 1 \
+                            and self.rayParams[rayNum + 1] != \
+                            self.rayParams[rayNum + 2]:
+                        # So we don't get 2 arrivals for the same ray, as
+                        # above.
                         continue
                     elif (self.dist[rayNum] - searchDist) * (
                                 searchDist - self.dist[rayNum + 1]) >= 0:
-- 
2.43.0


From 96c07edcd462e2141aa4e44c3ae6503a7f1ed3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 21/43] fix: two samples at the same distance raised
 ZeroDivisionError

---
 taupy/SeismicPhase.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index dd73a01..93fb07c 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -902,7 +902,8 @@ class SeismicPhase(object):
         rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
-        distRatio = (currArrival.dist - distA) / (distB - distA)
+        distRatio = (currArrival.dist - distA) / (distB - distA) \
+            if distB != distA else 0
         distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
         # First pierce point is always 0 distance at the source depth.
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
@@ -1040,15 +1041,17 @@ class SeismicPhase(object):
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-        arrivalTime = ((searchDist - self.dist[rayNum]) /
-                       (self.dist[rayNum + 1] - self.dist[rayNum])
-                       * (self.time[rayNum + 1] - self.time[rayNum]) +
-                       self.time[rayNum])
-        arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
-                           (self.rayParams[rayNum] -
-                            self.rayParams[rayNum + 1])
-                           / (self.dist[rayNum] - self.dist[rayNum + 1]) +
-                           self.rayParams[rayNum + 1])
+        # All rays between two samples at the same distance arrive there.
+        if self.dist[rayNum + 1] != self.dist[rayNum]:
+            distRatio = ((searchDist - self.dist[rayNum]) /
+                         (self.dist[rayNum + 1] - self.dist[rayNum]))
+        else:
+            distRatio = 0
+        arrivalTime = (distRatio * (self.time[rayNum + 1] - self.time[rayNum])
+                       + self.time[rayNum])
+        arrivalRayParam = (distRatio * (self.rayParams[rayNum + 1] -
+                                        self.rayParams[rayNum]) +
+                           self.rayParams[rayNum])
         if name.endswith("kmps"):
             takeoffAngle = 0
             incidentAngle = 0
-- 
2.43.0


From b5830feb6f0e72b41448ac4f3e082b4c251895fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 22/43] fix: a layer of constant slowness raised
 ZeroDivisionError

---
 taupy/SlownessLayer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index f6ed845..1d59d27 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -60,6 +60,16 @@ class SlownessLayer:
         # 1 micron). In that case also just return 0.
         if self.botDepth - self.topDepth < 0.000000001:
             return timedist
+        if self.topP == self.botP:
+            # B is zero: the angle of the ray doesn't change in this layer.
+            if p >= self.topP:
+                raise SlownessModelError("Ray is horizontal in this layer!")
+            cosTopP = math.sqrt(self.topP * self.topP - p * p)
+            logRadius = math.log((radiusOfEarth - self.topDepth) /
+                                 (radiusOfEarth - self.botDepth))
+            timedist.distRadian = p / cosTopP * logRadius
+            timedist.time = self.topP * self.topP / cosTopP * logRadius
+            return timedist
         B = math.log(self.topP / self.botP) / math.log(
             (radiusOfEarth - self.topDepth) / (radiusOfEarth - self.botDepth))
         sqrtTopTopMpp = math.sqrt(self.topP * self.topP - p * p)
-- 
2.43.0


From d35592d39e119804b883a15c4ed031a05e6ce769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 23/43] fix: slowness power law overflowed in thin layers with
 a steep gradient

---
 taupy/SlownessLayer.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index 1d59d27..5ad3f2e 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -104,17 +104,11 @@ class SlownessLayer:
                 B = np.divide(math.log(self.topP / self.botP),
                               math.log((radiusOfEarth - self.topDepth)
                               / (radiusOfEarth - self.botDepth)))
-                # This is a cludge but it's needed to mimic the Java behaviour.
-                try:
-                    denom = math.pow((radiusOfEarth - self.topDepth), B)
-                except OverflowError:
-                    denom = np.inf
-                A = np.divide(self.topP, denom)
-                with np.errstate(divide='ignore', invalid='ignore'):
-                    tempDepth = radiusOfEarth - math.exp(
-                        1.0 / B * math.log(np.divide(rayParam, A)))
-                # or equivalent (maybe better stability?):
-                # tempDepth = radiusOfEarth - math.pow(rayParam/A, 1/B)
+                # Relative to the top of the layer, as A itself overflows in
+                # thin layers with a steep gradient.
+                tempDepth = radiusOfEarth - \
+                    (radiusOfEarth - self.topDepth) * math.exp(
+                        1.0 / B * math.log(rayParam / self.topP))
                 # Check if slightly outside layer due to rounding or
                 # numerical instability:
                 if self.topDepth > tempDepth > self.topDepth - 0.000001:
@@ -185,17 +179,14 @@ class SlownessLayer:
             B = np.divide(math.log(np.divide(topP, botP)),
                           math.log(np.divide((radiusOfEarth - topDepth),
                                              (radiusOfEarth - botDepth))))
-            ADenominator = pow((radiusOfEarth - topDepth), B)
-            A = topP / ADenominator
-            answer = A * pow((radiusOfEarth - depth), B)
+            # Relative to the top of the layer, as A itself overflows in thin
+            # layers with a steep gradient.
+            answer = topP * pow((radiusOfEarth - depth) /
+                                (radiusOfEarth - topDepth), B)
             if answer < 0 or math.isnan(answer) or math.isinf(answer):
                 # numerical instability in power law calculation???
-                # try a linear interpolation if the layer is small ( <2 km)
-                # or if denominator of A is infinity as we probably overflowed
-                # the double in that case.
-                if botDepth - topDepth < 2 \
-                        or math.isinf(ADenominator) \
-                        or botP == 0:
+                # try a linear interpolation if the layer is small ( <2 km).
+                if botDepth - topDepth < 2 or botP == 0:
                     linear = (botP - topP) / (botDepth - topDepth) * \
                              (depth - topDepth) + topP
                     if linear < 0 \
-- 
2.43.0


From f71951bbdbb56f6d9e42f14f696c5f25101e107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 24/43] fix: slowness increasing from the surface was not taken
 for a high slowness zone

---
 taupy/SlownessModel.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index c2e8cb2..cb1e94d 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -168,6 +168,8 @@ class SlownessModel(object):
         # but these should do)
         minPSoFar = 1.1e300
         minSSoFar = 1.1e300
+        slopeP = 0
+        slopeS = 0
         # First remove any critical points previously stored
         # so these are effectively re-initialised... it's probably silly
         self.criticalDepths = []  # list of CriticalDepth
@@ -235,6 +237,14 @@ class SlownessModel(object):
                 currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
                                                 self.radiusOfEarth)
 
+            # Last change of slowness with depth, skipping constant slowness.
+            for prev in (prevSLayer.topP - prevSLayer.botP,
+                         prevSLayer.botP - currSLayer.topP):
+                slopeS = prev if prev != 0 else slopeS
+            for prev in (prevPLayer.topP - prevPLayer.botP,
+                         prevPLayer.botP - currPLayer.topP):
+                slopeP = prev if prev != 0 else slopeP
+
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
                 # a first order discontinuity
@@ -289,17 +299,17 @@ class SlownessModel(object):
                         DepthRange(topDepth=currPLayer.topDepth)
                     highSlownessZoneP.rayParam = minPSoFar
 
-            elif ((prevSLayer.topP - prevSLayer.botP) *
-                  (prevSLayer.botP - currSLayer.botP) < 0) or (
-                      (prevPLayer.topP - prevPLayer.botP) *
-                      (prevPLayer.botP - currPLayer.botP)) < 0:
-                # local slowness extrema, java l 1005
-                self.criticalDepths.append(
-                    CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
-                if self.DEBUG:
-                    print("local slowness extrema, depth=" +
-                          str(currSLayer.topDepth))
-                # here is line 1014 of the java src!
+            else:
+                if slopeS * (currSLayer.topP - currSLayer.botP) < 0 \
+                        or slopeP * (currPLayer.topP - currPLayer.botP) < 0:
+                    # local slowness extrema, java l 1005
+                    self.criticalDepths.append(
+                        CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
+                    if self.DEBUG:
+                        print("local slowness extrema, depth=" +
+                              str(currSLayer.topDepth))
+                # Slowness may increase from a local extremum or right from
+                # the surface. Here is line 1014 of the java src!
                 if inHighSlownessZoneP is False \
                         and currPLayer.topP < currPLayer.botP:
                     if self.DEBUG:
-- 
2.43.0


From f49a96189265217f5e9b3bf35ae7d1b74bec7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 25/43] fix: S velocities below the outer core were used
 despite allowInnerCoreS=False

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index cb1e94d..ad47830 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -219,7 +219,7 @@ class SlownessModel(object):
                 fluidZone = DepthRange(topDepth=currVLayer.topDepth)
             # If already in fluid zone, check if exited (java line 909)
             if inFluidZone is True and currVLayer.topSVelocity != 0:
-                if prevVLayer.botDepth > self.vMod.iocbDepth:
+                if prevVLayer.botDepth >= self.vMod.iocbDepth:
                     belowOuterCore = True
                 inFluidZone = False
                 fluidZone.botDepth = prevVLayer.botDepth
-- 
2.43.0


From 1c77237f25d5d2343609cd8e9370eec76d2e1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 26/43] fix: a high slowness zone directly below another was
 taken for an overlap

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index ad47830..9c635dc 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1192,7 +1192,7 @@ class SlownessModel(object):
                 if highSZoneDepth.topDepth >= highSZoneDepth.botDepth:
                     raise SlownessModelError(
                         "High Slowness zone has zero or negative thickness!")
-                if highSZoneDepth.topDepth <= prevDepth:
+                if highSZoneDepth.topDepth < prevDepth:
                     raise SlownessModelError(
                         "High Slowness zone overlaps previous zone.")
                 prevDepth = highSZoneDepth.botDepth
-- 
2.43.0


From dd8a2c04fcfdf2eb098aec597336bdd065a37542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 27/43] fix: no shadow zone was inserted for a source at the
 top of a high slowness zone

---
 taupy/SeismicPhase.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 93fb07c..5c8dfb3 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -749,13 +749,15 @@ class SeismicPhase(object):
                     foundOverlap = False
                     for legNum in range(len(self.branchSeq)):
                         # Check for downgoing legs that cross the high
-                        # slowness zone with the same wave type.
+                        # slowness zone with the same wave type. The source
+                        # may be right at its top.
                         if (self.branchSeq[legNum] == branchNum
                             and self.waveType[legNum] == isPwave
                             and self.downGoing[legNum] is True
-                            and self.branchSeq[legNum - 1] == branchNum - 1
-                            and self.waveType[legNum - 1] == isPwave
-                            and self.downGoing[legNum - 1] is True):
+                            and (legNum == 0 or (
+                                self.branchSeq[legNum - 1] == branchNum - 1
+                                and self.waveType[legNum - 1] == isPwave
+                                and self.downGoing[legNum - 1] is True))):
                             foundOverlap = True
                             break
                     if foundOverlap:
-- 
2.43.0


From 4c63136610c8f8d9417cbdb2d95fc0296fb31392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 28/43] fix: sampling never ended below a fluid with a solid of
 faster S waves under it

---
 taupy/SlownessModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 9c635dc..c076b3d 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -777,7 +777,9 @@ class SlownessModel(object):
                 if self.allowInnerCoreS is False \
                         and sLayer.botDepth > self.vMod.iocbDepth:
                     break
-                elif topVelocity == 0:
+                elif topVelocity == 0 and not (
+                        botVelocity != 0 and sLayer.botP < sLayer.topP):
+                    # Only a faster solid right below a fluid reflects.
                     continue
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 botDepth = sLayer.botDepth
-- 
2.43.0


From 3e4dd21997ece0e45b784aebaa1feb854c799c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 29/43] fix: rounding could give a slowness layer negative
 thickness

---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index c076b3d..b1804ea 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -790,6 +790,9 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # Rounding must not push it out of the layer.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From c9703a6e6d60d4f10d46f1c8911ae2cb934709e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:35 +0000
Subject: [PATCH 30/43] fix: two sampling steps in a row that were too coarse
 raised AttributeError

---
 taupy/SlownessModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b1804ea..885651e 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -966,6 +966,7 @@ class SlownessModel(object):
                             self.addSlowness((sLayer.topP + sLayer.botP) / 2,
                                              self.SWAVE)
                             currTD = prevPrevTD
+                            isCurrOK = currTD is not None
                             isPrevOK = False
                             if j > 0:
                                 # Back up one step unless we are at the
-- 
2.43.0


From 1bc8628a6f38d2ed6c73c80f329e0244405f9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 31/43] fix: a source within 1e-6 km of a sample gave S waves
 the P layers or left S unsplit

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 885651e..506186f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1319,7 +1319,7 @@ class SlownessModel(object):
                                                     sLayer.botP, depth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
@@ -1333,7 +1333,7 @@ class SlownessModel(object):
                                                     sLayer.botDepth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0


From 4eb98980c05e1342550e451f0411990ec8235b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 32/43] fix: reject mantle legs reflected below the core-mantle
 boundary

S legs followed by a reflection from a boundary in the core (SviKP) were
traced as S through the fluid outer core.
---
 taupy/SeismicPhase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 5c8dfb3..4f06469 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -307,6 +307,11 @@ class SeismicPhase(object):
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
                     disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
+                    if self.currBranch < tMod.cmbBranch < disconBranch:
+                        raise TauModelError(
+                            "Phase not recognized: {currLeg} followed by "
+                            "{nextLeg}, which is below the CMB".format(
+                                **locals()))
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
-- 
2.43.0


From 58fd99f2ef987cf9f15418cd8362ac42c32eb6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 33/43] fix: rays converting from P to S on the way down were
 lost

The limit for crossing a boundary downwards took the slowness of the
incoming wave type below the boundary, so that phases such as PmSP or
P410SP missed all ray parameters above it, although the ray goes on as S
there.
---
 taupy/SeismicPhase.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4f06469..70e716f 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -251,6 +251,14 @@ class SeismicPhase(object):
             if len(self.branchSeq) > 0 and isPWavePrev != isPWave:
                 self.phaseConversion(tMod, int(self.branchSeq[-1]),
                                      self.endAction, isPWavePrev)
+            elif (len(self.branchSeq) > 0 and currLeg[0] in "PSKIJ"
+                    and self.endAction == self.TRANSDOWN):
+                # The next ray leg goes on downwards as the same wave type,
+                # so it must not be reflected at the boundary.
+                self.maxRayParam = min(
+                    self.maxRayParam,
+                    tMod.getTauBranch(int(self.branchSeq[-1]),
+                                      isPWave).minRayParam)
             # Legs must be in the part of the Earth they are named after.
             if ((currLeg[0] in "PSps" and self.currBranch >= tMod.cmbBranch
                  and (legNum > 0 or not isPWave)) or
@@ -561,7 +569,7 @@ class SeismicPhase(object):
         elif endAction == self.TRANSDOWN:
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(fromBranch, isPtoS).minRayParam,
+                tMod.getTauBranch(fromBranch, isPtoS).minTurnRayParam,
                 tMod.getTauBranch(fromBranch + 1, not isPtoS).maxRayParam)
         else:
             raise TauModelError("Illegal endAction = {}".format(endAction))
@@ -616,7 +624,7 @@ class SeismicPhase(object):
             isDownGoing = True
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(endBranch, isPWave).minRayParam)
+                tMod.getTauBranch(endBranch, isPWave).minTurnRayParam)
         else:
             raise TauModelError("Illegal endAction: {}".format(endAction))
         if isDownGoing:
-- 
2.43.0


From 45712e92758430a797d28176b55471e46d415d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 34/43] fix: no diffraction along the core below a high
 slowness zone

The test compared the smallest ray parameter of the zone with itself, so it
was never true and Pdiff was reported with the slowness of the top of the
zone instead.
---
 taupy/SeismicPhase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 70e716f..ace837f 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -721,8 +721,9 @@ class SeismicPhase(object):
                     self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                     self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
         if "Sdiff" in self.name or "Pdiff" in self.name:
-            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
-                                             self.minRayParam,
+            # The smallest ray parameter that turns in such a zone is the one
+            # that delimits it, so ask for any larger ray parameter.
+            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10, 1e300,
                                              "Pdiff" in self.name):
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
-- 
2.43.0


From 6e4ca0479b04d9a40c39708a20750c8eb7730108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 35/43] fix: no head wave along the Moho above slower mantle

Where the slowness increases across the Moho there is no critical
refraction, but Pn and Sn were reported with the smallest slowness of the
crust.
---
 taupy/SeismicPhase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index ace837f..9e783bd 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -460,9 +460,13 @@ class SeismicPhase(object):
                         # thinking we are turning below the Moho, but then
                         # make the minRayParam equal to maxRayParam,
                         # which is the head wave ray.
+                        # There is none along the top of a high slowness
+                        # zone, into which rays are refracted downwards.
                         if (self.maxRayParam >= tMod.getTauBranch(
                                 tMod.mohoBranch, isPWave).maxRayParam
-                                >= self.minRayParam):
+                                >= self.minRayParam
+                                and not tMod.sMod.depthInHighSlowness(
+                                    tMod.mohoDepth + 1e-10, 1e300, isPWave)):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
-- 
2.43.0


From bb58d8417594a6d7f35c36ce28e93f49d5eefb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 36/43] fix: pierce points of the last ray of a phase

An arrival at exactly the last sample of a phase was interpolated between
that sample and the next ray of the model, which is not part of the phase,
so its pierce points ended at another time and distance than the arrival.
---
 taupy/SeismicPhase.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9e783bd..4fe9984 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -905,21 +905,22 @@ class SeismicPhase(object):
         arrival is the same as the input argument but now has the pierce
         points filled in.
         """
+        # Here we use ray parameter and dist info stored within the
+        # SeismicPhase so we can use currArrival.rayParamIndex, which
+        # may not correspond to rayNum (for tMod.rayParams).
+        rayParamA = self.rayParams[currArrival.rayParamIndex]
+        rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         # Find the ray parameter index that corresponds to the arrival ray
         # parameter in the TauModel, ie it is between rayNum and rayNum+1,
         # We know that it must be <tMod.rayParams.length-1 since the last
-        # ray parameter sample is 0 in a spherical model.
+        # ray parameter sample is 0 in a spherical model. The arrival may
+        # have the ray parameter of rayNum+1 itself.
         rayNum = 0
         for i, rp in enumerate(self.tMod.rayParams[:-1]):
-            if rp >= currArrival.rayParam:
+            if rp >= rayParamA:
                 rayNum = i
             else:
                 break
-        # Here we use ray parameter and dist info stored within the
-        # SeismicPhase so we can use currArrival.rayParamIndex, which
-        # may not correspond to rayNum (for tMod.rayParams).
-        rayParamA = self.rayParams[currArrival.rayParamIndex]
-        rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
         distRatio = (currArrival.dist - distA) / (distB - distA) \
-- 
2.43.0


From 32c70d0b5aefcf5042812d33c929fbd4bcff7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 37/43] fix: pierce points of the ray just before a shadow zone

The ray parameter at the edge of a shadow zone is tabulated for the ray that
crosses the high slowness zone. Interpolating the pierce points of the last
segment before the shadow zone towards it put points in and below the zone
and ended them at the wrong time and distance.
---
 taupy/SeismicPhase.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4fe9984..c1bb1b5 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -926,6 +926,11 @@ class SeismicPhase(object):
         distRatio = (currArrival.dist - distA) / (distB - distA) \
             if distB != distA else 0
         distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
+        # The ray just before a shadow zone turns above the high slowness zone,
+        # while the same ray parameter is tabulated for the ray crossing it.
+        beforeShadow = (
+            currArrival.rayParamIndex + 2 < len(self.rayParams) and
+            rayParamB == self.rayParams[currArrival.rayParamIndex + 2])
         # First pierce point is always 0 distance at the source depth.
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
         branchDist = 0
@@ -967,8 +972,11 @@ class SeismicPhase(object):
             else:
                 distA = tauBranch.dist[rayNum]
                 timeA = tauBranch.time[rayNum]
-                distB = tauBranch.dist[rayNum + 1]
-                timeB = tauBranch.time[rayNum + 1]
+                if beforeShadow and tauBranch.maxRayParam <= rayParamB:
+                    distB, timeB = 0, 0
+                else:
+                    distB = tauBranch.dist[rayNum + 1]
+                    timeB = tauBranch.time[rayNum + 1]
             branchDist += distRatio * (distB - distA) + distA
             prevBranchTime = branchTime
             branchTime += distRatio * (timeB - timeA) + timeA
-- 
2.43.0


From 036b76363b4039c11e4c6458b5f3ed42a5797edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 38/43] fix: models whose name contains a dot could not be
 loaded by name

---
 taupy/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/taupy/utils.py b/taupy/utils.py
index 5ece3d0..cc54d93 100755
--- a/taupy/utils.py
+++ b/taupy/utils.py
@@ -18,7 +18,11 @@ ROOT = os.path.dirname(os.path.abspath(inspect.getfile(
 
 def _get_model_filename(model_name):
     model_dir = os.path.join(ROOT, "data", "models")
-    model_name = os.path.splitext(os.path.basename(model_name))[0]
+    model_name = os.path.basename(model_name)
+    # Only the ending of the velocity file is dropped, a model may have a
+    # dot in its name.
+    if model_name.endswith(".tvel"):
+        model_name = model_name[:-len(".tvel")]
     filename = os.path.join(
         model_dir, model_name +
         ("__py%i%i__tvel" % sys.version_info[:2]) + os.path.extsep + "pickle")
-- 
2.43.0


From b2f24f936c890f6d4296b5c1245c2e4536ca1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 39/43] fix: a model given by path was taken for the built-in
 model of that name

---
 taupy/TauModelLoader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..5e7b951 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -13,11 +13,11 @@ from .utils import _get_model_filename
 def load(model_name):
     """
     Load a pickled model. It first tries to load a TauPy internal model with
-    the given name. Otherwise it is treated as a filename.
+    the given name. Otherwise, and if it has a directory, it is treated as a
+    filename.
     """
-    #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    if os.path.dirname(model_name) or not os.path.exists(filename):
         filename = model_name
 
     with open(filename, 'rb') as f:
-- 
2.43.0


From 8ca7f74ca30be5acc5cfa9baccadca0cd2844f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 40/43] fix: selected pierce points were judged by the source
 depth, not the point before

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index a5714e5..50afc40 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -111,6 +111,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From af43c3d280600f45219f9af74e86cf2b78b817f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 41/43] fix: a model could not be written to the current
 directory

---
 taupy/TauP_Create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..18775ad 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            directory = os.path.dirname(self.output_filename)
+            if directory and not os.path.exists(directory):
+                os.makedirs(directory)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From e99852ec565ab35b481ec90e186092150d743188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 42/43] fix: create_taup_model and TauP_Create as a script
 called what does not exist

---
 taupy/TauP_Create.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index 18775ad..131ee92 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -135,26 +135,38 @@ class TauP_Create(object):
             if self.debug:
                 print("Method run is done, but not necessarily successful.")
 
+    @staticmethod
+    def main(model_file_name, output_dir, input_dir, verbose=False):
+        """ Reads the velocity model of the given file in input_dir and
+        writes the .taup model of the same name to output_dir.
+        """
+        model_name = model_file_name
+        if model_name.endswith(".tvel"):
+            model_name = model_name[:-len(".tvel")]
+        mod_create = TauP_Create(
+            os.path.join(input_dir, model_file_name),
+            os.path.join(output_dir, model_name + ".taup"), verbose)
+        mod_create.loadVMod()
+        mod_create.run()
+
 
 if __name__ == '__main__':
     parser = argparse.ArgumentParser()
     parser.add_argument('-v', '--verbose', '-d', '--debug',
                         action='store_true',
                         help='increase output verbosity')
-    parser.add_argument('-i', '--input_dir',
+    parser.add_argument('-i', '--input_dir', default='./data',
                         help='set directory of input velocity models '
                              '(default: ./data)')
-    parser.add_argument('-o', '--output_dir',
+    parser.add_argument('-o', '--output_dir', default='./data/taup_models',
                         help='set where to write the .taup model - be '
                              'careful, this will overwrite any previous '
                              'models of the same name (default: '
                              './data/taup_models)')
-    parser.add_argument('-mod', '--filename',
+    parser.add_argument('-mod', '--filename', default='iasp91.tvel',
                         help='the velocity model name '
                              '(default: iasp91.tvel)')
     args = parser.parse_args()
 
-    tauPCreate = TauP_Create(modelFilename=args.mod, output_dir=args.o,
-                             input_dir=args.i, verbose=args.verbose)
-    tauPCreate.loadVMod()
-    tauPCreate.run()
+    TauP_Create.main(args.filename, args.output_dir, args.input_dir,
+                     args.verbose)
-- 
2.43.0


From c663202a4b9ff54ba217682b6f03d8fd5a6d173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 43/43] fix: an empty phase list stands for all phases, as
 documented

---
 taupy/tau.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..a0be85f 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -93,7 +93,7 @@ class TauPyModel(object):
         # Accessing the arrivals not just by list indices but by phase name
         # might be useful, but also difficult: several arrivals can have the
         # same phase.
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = _default_phases(phase_list)
         tt = TauP_Time(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         tt.run(print_output)
@@ -104,7 +104,7 @@ class TauPyModel(object):
     def get_pierce_points(self, source_depth_in_km, distance_in_degree=None,
                           phase_list=None, coordinate_list=None,
                           print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = _default_phases(phase_list)
         pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
                          distance_in_degree, coordinate_list)
         pp.run(print_output)
@@ -115,7 +115,7 @@ class TauPyModel(object):
     def get_ray_paths(self, source_depth_in_km, distance_in_degree=None,
                       phase_list=None, coordinate_list=None,
                       print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = _default_phases(phase_list)
         rp = TauP_Path(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         rp.run(print_output)
@@ -124,6 +124,15 @@ class TauPyModel(object):
         return Arrivals(rp.arrivals)
 
 
+def _default_phases(phase_list):
+    """
+    All phases if no list or an empty one is given.
+    """
+    if phase_list is None:
+        return ["ttall"]
+    return list(phase_list) or ["ttall"]
+
+
 def create_taup_model(model_name, output_dir, input_dir):
     """
     Create a .taup model from a .tvel file.
-- 
2.43.0

