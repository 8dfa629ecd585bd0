From a296bc76a5ae510e00888f6cdb936850f1be52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 01/42] fix: GetBoundingBox of a surface reads the V knot
 vector with the U index (out of bounds when U has more knots)

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..6877185 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -354,7 +354,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From 386d32a76195bc0487fd3afeb49996ca50942630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 02/42] fix: surface Reverse leaves the knot vector of the
 other direction to the caller's previous contents and prepends empty control
 point rows

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6877185..1e072d4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -529,7 +531,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
+		std::vector<std::vector<XYZW>> newControlPoints;
+		newControlPoints.reserve(size);
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-- 
2.43.0


From 761925f5dd3a659e18c615a546596a82b9015471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 03/42] fix: volume derivatives accumulate from the wrong
 temporary (out of bounds when DegreeV > DegreeW)

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..265ac7f 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From c8c69c1a40d6ba0b37d6d94748ffbc28a307673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 04/42] fix: volume RefineKnotVector sizes the control net one
 short and writes past its end

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 265ac7f..46e5318 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -865,7 +865,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 55956341c274597dd010ee40f905138a169e2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 05/42] fix: volume Reverse in V and W writes to an empty
 control net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 46e5318..03094b1 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1477,6 +1477,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvT = kvW;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvS;
 
 		for (int sep = 0; sep <= l; sep++)
@@ -1516,6 +1518,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvS = kvV;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvT;
 
 		for (int col = 0; col <= m; col++)
-- 
2.43.0


From acce8b750bbfb1a916c382ef950c94491472de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:33 +0000
Subject: [PATCH 06/42] fix: corner fillet surface keeps the caller's previous
 knot vectors

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1e072d4..3308355 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2144,6 +2144,8 @@ void LNLib::NurbsSurface::MakeCornerFilletSurface(const LN_NurbsCurve& arc, LN_N
 
 	surface.DegreeU = 4;
 	surface.DegreeV = 2;
+	surface.KnotVectorU = { 0,0,0,0,0,1,1,1,1,1 };
+	surface.KnotVectorV = { 0,0,0,1,1,1 };
 	surface.ControlPoints = controlPoints;
 }
 
-- 
2.43.0


From a4650b60fe38545cd57e487fa7bcadb2f51ad5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:03 +0000
Subject: [PATCH 07/42] fix: surface InsertKnot at a knot of multiplicity
 degree + 1 computes a negative number of insertions

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 3308355..b19bf3d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -570,7 +570,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From bd4c1b7c5612971c4c5c20bb7dfd46f434666bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:03 +0000
Subject: [PATCH 08/42] fix: curve InsertKnot leaves the result to the caller's
 previous contents when nothing is inserted

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..186dd5d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -462,6 +462,7 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From b15182b7dedcc9b8ee8f7467bb7b6dc8fe221fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:03 +0000
Subject: [PATCH 09/42] fix: curve Extract returns a curve whose knot vector
 does not fit its control points (later reads are out of bounds)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 186dd5d..f6c66f6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1598,26 +1598,15 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 
 	LN_NurbsCurve tempCurve = curve;
 
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, startParameter, left, right)) {
+		tempCurve = right;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, endParameter, left, right)) {
+		tempCurve = left;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 0ae06c6358ba6d411e82dd3a3225375fec29ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:03 +0000
Subject: [PATCH 10/42] fix: curve DecomposeToBeziers never advances past a
 knot of multiplicity degree (endless loop for degree one)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f6c66f6..4d49147 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -718,18 +718,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From 78cf423a5500041fa6781751c6632fd0fc69c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:03 +0000
Subject: [PATCH 11/42] fix: curve RemoveKnot reads before the control points
 for end knots or more removals than the multiplicity, and drops more knots
 than control points when a removal is refused

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 4d49147..bfbc896 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -754,24 +754,17 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int first = r - degree;
 	int last = r - s;
 
-	std::vector<double> restKnotVector = knotVector;
-	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
-	{
-		restKnotVector[k - times] = restKnotVector[k];
-	}
-	for (int i = 0; i < times; i++)
-	{
-		restKnotVector.pop_back();
-	}
-
 	std::vector<XYZW> updatedControlPoints = controlPoints;
-	std::vector<XYZW> temp(2 * degree + 1);
+	std::vector<XYZW> temp(2 * degree + 2);
 
 	int t = 0;
-	for (t = 0; t < times; t++)
+	for (t = 0; t < std::min(times, s); t++)
 	{
 		int off = first - 1;
+		if (off < 0 || last + 1 > n)
+		{
+			break;
+		}
 		temp[0] = controlPoints[off];
 		temp[last + 1 - off] = controlPoints[last + 1];
 		int i = first;
@@ -836,6 +829,17 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 
+	std::vector<double> restKnotVector = knotVector;
+	int m = n + degree + 1;
+	for (int k = r + 1; k <= m; k++)
+	{
+		restKnotVector[k - t] = restKnotVector[k];
+	}
+	for (int i = 0; i < t; i++)
+	{
+		restKnotVector.pop_back();
+	}
+
 	int j = (2 * r - s - degree) / 2;
 	int i = j;
 
-- 
2.43.0


From 269e4b7c71cc4574085ec4ea7efb6120e0f3008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:03 +0000
Subject: [PATCH 12/42] fix: MathUtils::Transpose appends to the caller's
 previous contents

---
 src/LNLib/include/MathUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/MathUtils.h b/src/LNLib/include/MathUtils.h
index 4d5afb9..9bc7afa 100644
--- a/src/LNLib/include/MathUtils.h
+++ b/src/LNLib/include/MathUtils.h
@@ -60,6 +60,7 @@ namespace LNLib
 		static void Transpose(const std::vector<std::vector<T>>& matrix, std::vector<std::vector<T>>& transposed)
 		{
 			std::vector<T> temp;
+			transposed.clear();
 
 			for (int i = 0; i < matrix[0].size(); i++)
 			{
-- 
2.43.0


From 921f702addd82026aacec9f949a17e2b9a96b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:03 +0000
Subject: [PATCH 13/42] fix: surface mesh parameterization accumulates onto the
 caller's previous contents

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..70b23f5 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -268,8 +268,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From 03715c24f9aa58aa1de9e622ae532c76eb0459b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:33 +0000
Subject: [PATCH 14/42] fix: surface RemoveKnot returns a ragged or empty
 control net when a row or column refuses the removal

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b19bf3d..9e17325 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -994,7 +994,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 
 			LN_NurbsCurve newtc;
 
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) || 
+				(i > 0 && newtc.ControlPoints.size() != tempControlPoints[0].size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
@@ -1014,7 +1018,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 			tc.ControlPoints = controlPoints[i];
 
 			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.ControlPoints.size() != tempControlPoints[0].size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-- 
2.43.0


From e2f3253a57ee96513d89039286d3284b352ff38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 15/42] fix: EquallyTessellate of curves and surfaces appends
 to the caller's previous contents

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 2 ++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index bfbc896..f041f63 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1180,6 +1180,8 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 	uniqueKv.erase(unique(uniqueKv.begin(), uniqueKv.end()), uniqueKv.end());
 	int size = uniqueKv.size();
 	int num = 100;
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
 	for (int i = 0; i < size - 1; i++)
 	{
 		double currentU = uniqueKv[i];
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9e17325..2e8a4c4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1180,6 +1180,9 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 	uniqueKvV.erase(unique(uniqueKvV.begin(), uniqueKvV.end()), uniqueKvV.end());
 	int sizeV = uniqueKvV.size();
 
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
+
 	std::vector<double> tessellatedU;
 	int intervals = 100;
 	for (int i = 0; i < sizeU - 1; i++)
-- 
2.43.0


From c3602dd0997fc1a9ed62af479d58da76675556b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 16/42] fix: surface GlobalInterpolation mixes up rows and
 columns (out of bounds for non-square grids)

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 2e8a4c4..9cddb4b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2174,8 +2174,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	int rows = static_cast<int>(throughPoints.size());
 	int cols = static_cast<int>(throughPoints[0].size());
 
-	VALIDATE_ARGUMENT(cols > degreeU, "throughPoints", "Column size must be greater than degreeU.");
-	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
+	VALIDATE_ARGUMENT(rows > degreeU, "throughPoints", "Row size must be greater than degreeU.");
+	VALIDATE_ARGUMENT(cols > degreeV, "throughPoints", "Column size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
 	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
@@ -2195,8 +2195,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				A[eqIdx][ctrlIdx] = 1.0;
 			}
 			else {
-				double u = uk[j];
-				double v = vl[i];
+				double u = uk[i];
+				double v = vl[j];
 
 				int spanU = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, u);
 				int spanV = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, v);
@@ -2207,12 +2207,12 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				Polynomials::BasisFunctions(spanU, degreeU, knotVectorU, u, basisU);
 				Polynomials::BasisFunctions(spanV, degreeV, knotVectorV, v, basisV);
 
-				for (int l = 0; l <= degreeV; ++l) {
-					int ctrlRow = spanV - degreeV + l;
+				for (int k = 0; k <= degreeU; ++k) {
+					int ctrlRow = spanU - degreeU + k;
 					if (ctrlRow < 0 || ctrlRow >= rows) continue;
 
-					for (int k = 0; k <= degreeU; ++k) {
-						int ctrlCol = spanU - degreeU + k;
+					for (int l = 0; l <= degreeV; ++l) {
+						int ctrlCol = spanV - degreeV + l;
 						if (ctrlCol < 0 || ctrlCol >= cols) continue;
 
 						int ctrlIdx = ctrlRow * cols + ctrlCol;
-- 
2.43.0


From ace2b5d6640907647a7455f9b43a426cde3807c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 17/42] fix: BicubicLocalInterpolation reads the parameters of
 the other direction (out of bounds for non-square grids)

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9cddb4b..4b064e3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2360,7 +2360,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = (vb[j + 1] - vb[j]) * rowTotalLen[i];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
 			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
 		}
@@ -2383,7 +2383,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = (ub[i + 1] - ub[i]) * colTotalLen[j];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
 			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
 		}
-- 
2.43.0


From 20928bb5f6ee028ea6b084be45f8d966ff618295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 18/42] fix: CreateLoftSurface reads past the control points of
 a section that has fewer than the others

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4b064e3..f5965df 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2655,6 +2655,10 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
+	for (int k = 1; k < size; k++)
+	{
+		VALIDATE_ARGUMENT(curvesControlPoints[k].size() == curvesControlPoints[0].size(), "sections", "Sections must have the same number of control points.");
+	}
 
 	int degreeU = degree_max;
 	int degreeV = degree_max;
-- 
2.43.0


From b4fcaa08565fe6963c0bcaa110a1f9f14d9382bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 19/42] fix: surface ComputeFirstOrderDerivative adds to the
 caller's previous contents

---
 src/LNLib/include/BsplineSurface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..25687fc 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -180,6 +180,7 @@ namespace LNLib
 				int dd = std::min(1, dv);
 				for (int l = 0; l <= dd; l++)
 				{
+					derivatives[k][l] = T();
 					for (int s = 0; s <= degreeV; s++)
 					{
 						derivatives[k][l] += Nv[l][s] * temp[s];
-- 
2.43.0


From 70880466a7765d86cd421babd49197fdbcc04c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 20/42] fix: GetInsertedKnotElement appends to the caller's
 previous contents

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..da5da76 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -148,6 +148,9 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
 	std::map<double, int> map1 = GetKnotMultiplicityMap(knotVector1);
 
+	insertElements0.clear();
+	insertElements1.clear();
+
 	for (auto it = map0.begin(); it != map0.end(); ++it)
 	{
 		double key0 = it->first;
-- 
2.43.0


From 83aece718656a724ca6b439bc1a89b883454a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 21/42] fix: local conic and cubic fitting append to the
 caller's previous contents

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 2 ++
 src/LNLib/Geometry/Curve/NurbsCurve.cpp  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..ac917a8 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -38,6 +38,8 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 
 bool LNLib::BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(const XYZ& startPoint, const XYZ& startTangent, const XYZ& endPoint, const XYZ& endTangent, std::vector<XYZW>& controlPoints)
 {
+	controlPoints.clear();
+
 	XYZ chord = (endPoint - startPoint).Normalize();
 	XYZ nST = const_cast<XYZ&>(startTangent).Normalize();
 	XYZ nET = const_cast<XYZ&>(endTangent).Normalize();
diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f041f63..f089f70 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2936,6 +2936,8 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 		return BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(startPoint, startTangent, endPoint, endTangent, middleControlPoints);
 	}
 
+	middleControlPoints.clear();
+
 	double alf1, alf2 = 0.0;
 	XYZ R(0, 0, 0);
 	CurveCurveIntersectionType type = Intersection::ComputeRays(startPoint, startTangent, endPoint, endTangent, alf1, alf2, R);
@@ -3007,6 +3009,8 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	VALIDATE_ARGUMENT(!startTangent.IsZero(), "startTangent", "StartTangent must not be zero vector.");
 	VALIDATE_ARGUMENT(!endTangent.IsZero(), "endTangent", "EndTangent must not be zero vector.");
 
+	middleControlPoints.clear();
+
 	int size = throughPoints.size();
 	XYZ startPoint = throughPoints[startPointIndex];
 	XYZ endPoint = throughPoints[endPointIndex];
-- 
2.43.0


From 972e7031a59ef0ead30194dc54d222d40ba084c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 22/42] fix: curve Offset leaves the caller's previous contents
 as the result when adjacent legs do not intersect

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f089f70..cb1cc25 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -170,13 +170,14 @@ namespace LNLib
 			XYZ nextP1 = tempPoints[i + 3];
 
 			double param0, param1;
-			XYZ result;
-			CurveCurveIntersectionType type = Intersection::ComputeRays(currentP0, currentP1 - currentP0, nextP1, nextP0 - nextP1, param0, param1, result);
+			XYZ intersection;
+			CurveCurveIntersectionType type = Intersection::ComputeRays(currentP0, currentP1 - currentP0, nextP1, nextP0 - nextP1, param0, param1, intersection);
 			if (type != CurveCurveIntersectionType::Intersecting)
 			{
+				result = LN_NurbsCurve();
 				return;
 			}
-			newControlPoints.emplace_back(XYZW(result, 1));
+			newControlPoints.emplace_back(XYZW(intersection, 1));
 		}
 
 		newControlPoints.emplace_back(XYZW(tempPoints[tempPoints.size() - 1], 1));
-- 
2.43.0


From 62493c0e195c850559e90ff402798d2e74f1661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 23/42] fix: ProjectNormal of a closed curve writes one past
 the end of its buffer

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cb1cc25..2796399 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -402,7 +402,7 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
-- 
2.43.0


From 87796560185cad7e13cd6c881509330031d4d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 24/42] fix: CreateRandomOrthogonal returns no direction for
 vectors parallel to (1,-1,1)

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..f6e3615 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -176,6 +176,10 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
 	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	if (tangent.IsZero())
+	{
+		tangent = normal.CrossProduct(XYZ(1, 0, 0));
+	}
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
-- 
2.43.0


From 42031763e059829c0be957362a9bf4f38fdcb544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:32 +0000
Subject: [PATCH 25/42] fix: a reused Voronoi generator keeps the triangles and
 iterators of the previous run (dangling edge iterators)

---
 src/LNLib/Algorithm/Voronoi.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..296b1c6 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -50,6 +50,8 @@ LNLib::VoronoiDiagramGenerator::VoronoiDiagramGenerator()
 	PQhash = 0;
 
 	minDistanceBetweenSites = 0;
+	currentVertexLink = 0;
+	currentVertex = 0;
 
 	vertexLinks = 0;
 	vertices = 0;
@@ -94,6 +96,10 @@ void LNLib::VoronoiDiagramGenerator::reset()
 	vertices = 0;
 	finalVertexLinks = 0;
 	triangles.clear();
+	sizeOfVertices = 0;
+	sizeOfVertexLinks = 0;
+	sizeOfFinalVertices = 0;
+	sizeOfFinalVertexLinks = 0;
 }
 
 std::vector<std::vector<int>> LNLib::VoronoiDiagramGenerator::getTriangles()
@@ -119,6 +125,9 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 	int i;
 
 	minDistanceBetweenSites = minDist;
+	triangles.clear();
+	currentVertexLink = 0;
+	currentVertex = 0;
 
 	nsites = numPoints;
 	plot = 0;
@@ -751,6 +760,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	}
 
 	allEdges = 0;
+	iteratorEdges = 0;
 
 	geCurrent = gePrev = delaunayEdges;
 
@@ -762,6 +772,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	}
 
 	delaunayEdges = 0;
+	iteratorDelaunayEdges = 0;
 }
 
 void LNLib::VoronoiDiagramGenerator::pushGraphEdge(float x1, float y1, float x2, float y2)
-- 
2.43.0


From 610c2655e654defb0659354f430fdfc27d8e0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:32 +0000
Subject: [PATCH 26/42] fix: generateVertexLinks never leaves a vertex whose
 links were consumed (endless loop)

---
 src/LNLib/Algorithm/Voronoi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 296b1c6..c337021 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -1435,6 +1435,10 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 					}
 
 				}
+				else
+				{
+					break;//neither an inner vertex nor a branching one, prevents an endless loop
+				}
 			}
 			if (currentVertex < 0 || currentVertex >= sizeOfVertexLinks)
 			{
-- 
2.43.0


From a75727ac6ba8cc37196e54913240bd24ce21f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:04 +0000
Subject: [PATCH 27/42] fix: the Voronoi generator leaks its last edge, its
 list head and the vertex counters on every run

---
 src/LNLib/Algorithm/Voronoi.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index c337021..09d01a4 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -723,7 +723,7 @@ void LNLib::VoronoiDiagramGenerator::cleanup()
 	}
 	allMemoryList = 0;
 
-	if (current != 0 && current->memory != 0)
+	if (current != 0)
 	{
 		free(current->memory);
 		delete current;
@@ -759,6 +759,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 		delete gePrev;
 	}
 
+	delete geCurrent;
 	allEdges = 0;
 	iteratorEdges = 0;
 
@@ -771,6 +772,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 		delete gePrev;
 	}
 
+	delete geCurrent;
 	delaunayEdges = 0;
 	iteratorDelaunayEdges = 0;
 }
@@ -1292,14 +1294,8 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 	//if we couldn't get the memory we need, return
 	if (count1vertices == 0 || count3vertices == 0)
 	{
-		if (count3vertices != 0)
-		{
-			delete[] count3vertices;
-		}
-		if (count1vertices != 0)
-		{
-			delete[] count1vertices;
-		}
+		free(count3vertices);
+		free(count1vertices);
 		return;
 	}
 
@@ -1470,6 +1466,9 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 			}
 		}
 	}
+
+	free(count1vertices);
+	free(count3vertices);
 }
 
 bool LNLib::VoronoiDiagramGenerator::getNextVertexPair(float& x1, float& y1, float& x2, float& y2)
-- 
2.43.0


From 3fdf1132c558e0aeb28935bf0ebebbdb53840c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:04 +0000
Subject: [PATCH 28/42] fix: a failed allocation in the Voronoi generator is
 ignored (null dereference), leaks, or terminates in the destructor

---
 src/LNLib/Algorithm/Voronoi.cpp | 71 +++++++++++++++------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 09d01a4..e3fd8f4 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -33,6 +33,8 @@ email: shaneosullivan1@gmail.com
 #include "Voronoi.h"
 
 #include <cmath>
+#include <cstdlib>
+#include <new>
 
 LNLib::VoronoiDiagramGenerator::VoronoiDiagramGenerator()
 {
@@ -124,6 +126,14 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 	cleanupEdges();
 	int i;
 
+	if (allMemoryList == 0)
+	{
+		allMemoryList = new FreeNodeArrayList;
+		allMemoryList->next = 0;
+		allMemoryList->memory = 0;
+		currentMemoryBlock = allMemoryList;
+	}
+
 	minDistanceBetweenSites = minDist;
 	triangles.clear();
 	currentVertexLink = 0;
@@ -674,15 +684,14 @@ char* LNLib::VoronoiDiagramGenerator::getfree(struct Freelist* fl)
 
 	if (fl->head == (struct Freenode*)NULL)
 	{
-		t = (struct Freenode*)myalloc(sqrt_nsites * fl->nodesize);
-
-		if (t == 0)
-			return 0;
+		FreeNodeArrayList* block = new FreeNodeArrayList;
+		block->memory = 0;
+		block->next = 0;
+		currentMemoryBlock->next = block;
+		currentMemoryBlock = block;
 
-		currentMemoryBlock->next = new FreeNodeArrayList;
-		currentMemoryBlock = currentMemoryBlock->next;
+		t = (struct Freenode*)myalloc(sqrt_nsites * fl->nodesize);
 		currentMemoryBlock->memory = t;
-		currentMemoryBlock->next = 0;
 
 		for (i = 0; i < sqrt_nsites; i += 1)
 			makefree((struct Freenode*)((char*)t + i * fl->nodesize), fl);
@@ -728,11 +737,7 @@ void LNLib::VoronoiDiagramGenerator::cleanup()
 		free(current->memory);
 		delete current;
 	}
-
-	allMemoryList = new FreeNodeArrayList;
-	allMemoryList->next = 0;
-	allMemoryList->memory = 0;
-	currentMemoryBlock = allMemoryList;
+	currentMemoryBlock = 0;
 
 	if (ELhash != 0)
 	{
@@ -810,6 +815,8 @@ char* LNLib::VoronoiDiagramGenerator::myalloc(unsigned n)
 {
 	char* t = 0;
 	t = (char*)malloc(n);
+	if (t == 0 && n > 0)
+		throw std::bad_alloc();
 	total_alloc += n;
 	return(t);
 }
@@ -1195,7 +1202,10 @@ void LNLib::VoronoiDiagramGenerator::insertVertexAddress(long vertexNum, struct
 	//if the site address being entered is past the end of the array, then grow the array
 	while (vertexNum > sizeOfVertices - 1)
 	{
-		vertices = (Site**)realloc(vertices, (sizeOfVertices + 4000) * sizeof(Site*));
+		Site** grown = (Site**)realloc(vertices, (sizeOfVertices + 4000) * sizeof(Site*));
+		if (grown == 0)
+			throw std::bad_alloc();
+		vertices = grown;
 		sizeOfVertices += 4000;
 
 		for (int i = sizeOfVertices - 4000; i < sizeOfVertices; i++)
@@ -1221,7 +1231,10 @@ void LNLib::VoronoiDiagramGenerator::insertVertexLink(long vertexNum, long verte
 	//if the site address being entered is past the end of the array, then grow the array
 	while (vertexNum > sizeOfVertexLinks - 1 || vertexLinkedTo > sizeOfVertexLinks - 1)
 	{
-		vertexLinks = (Point3*)realloc(vertexLinks, (sizeOfVertexLinks + 4000) * sizeof(Point3));
+		Point3* grown = (Point3*)realloc(vertexLinks, (sizeOfVertexLinks + 4000) * sizeof(Point3));
+		if (grown == 0)
+			throw std::bad_alloc();
+		vertexLinks = grown;
 		sizeOfVertexLinks += 4000;
 
 		for (int i = sizeOfVertexLinks - 4000; i < sizeOfVertexLinks; i++)
@@ -1278,33 +1291,16 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 		return;
 	}
 
-	sizeOfFinalVertexLinks = (sizeOfVertices > sizeOfVertexLinks) ? sizeOfVertices : sizeOfVertexLinks;
-	finalVertexLinks = (struct LNLib::VertexLink*)myalloc(sizeOfFinalVertexLinks * sizeof(LNLib::VertexLink));
-
-	if (finalVertexLinks == 0)
-		return;
+	long linkCount = (sizeOfVertices > sizeOfVertexLinks) ? sizeOfVertices : sizeOfVertexLinks;
+	finalVertexLinks = (struct LNLib::VertexLink*)myalloc(linkCount * sizeof(LNLib::VertexLink));
+	sizeOfFinalVertexLinks = linkCount;
 	for (i = 0; i < sizeOfFinalVertexLinks; i++)
 	{
 		finalVertexLinks[i].count = 0;
 	}
 
-	long* count1vertices = (long*)myalloc(sizeOfFinalVertexLinks * sizeof(long));
-	long* count3vertices = (long*)myalloc(sizeOfFinalVertexLinks * sizeof(long));
-
-	//if we couldn't get the memory we need, return
-	if (count1vertices == 0 || count3vertices == 0)
-	{
-		free(count3vertices);
-		free(count1vertices);
-		return;
-	}
-
-	//initialise the two arrays
-	for (i = 0; i < sizeOfFinalVertexLinks; i++)
-	{
-		count1vertices[i] = 0;
-		count3vertices[i] = 0;
-	}
+	std::vector<long> count1vertices(sizeOfFinalVertexLinks, 0);
+	std::vector<long> count3vertices(sizeOfFinalVertexLinks, 0);
 	long count1counter = 0, count3counter = 0;
 	long count3links[3] = { -1 };
 	for (i = 0; i < sizeOfVertices; i++)
@@ -1466,9 +1462,6 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 			}
 		}
 	}
-
-	free(count1vertices);
-	free(count3vertices);
 }
 
 bool LNLib::VoronoiDiagramGenerator::getNextVertexPair(float& x1, float& y1, float& x2, float& y2)
-- 
2.43.0


From a6bbd32275167434efae92a64c249ab4f7425ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 29/42] fix: octree construction leaks the nodes built so far
 when an allocation fails

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..b4e1cae 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -16,6 +16,7 @@
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <memory>
 
 
 LNLib::Octant::Octant(LNLib::XYZ center, double extent, std::vector<int> indices, bool isLeaf)
@@ -75,8 +76,10 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
     int leafSize, double minExtent) {
     if (pointIndices.empty()) return nullptr;
 
+    std::unique_ptr<LNLib::Octant> created;
     if (root == nullptr) {
-        root = new LNLib::Octant(center, extent, pointIndices, true);
+        created.reset(new LNLib::Octant(center, extent, pointIndices, true));
+        root = created.get();
     }
 
     if ((int)pointIndices.size() <= leafSize || extent <= minExtent) {
@@ -109,6 +112,7 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
                 leafSize, minExtent);
         }
     }
+    created.release();
     return root;
 }
 
-- 
2.43.0


From accc236f9da627d4be9fa43a61d8fe05b1b5e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:25 +0000
Subject: [PATCH 30/42] fix: adaptive Triangulate leaks its parameter arrays
 when an allocation fails

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f5965df..8961b83 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3872,8 +3872,8 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		double vCoeff = vLength / (vmax - vmin);
 
 		int uvSize = usList.size();
-		float* uValues = new float[uvSize];
-		float* vValues = new float[uvSize];
+		std::vector<float> uValues(uvSize);
+		std::vector<float> vValues(uvSize);
 		for (int i = 0; i < uvSize; i++)
 		{
 			uValues[i] = usList[i] * uCoeff;
@@ -3888,12 +3888,8 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		VoronoiDiagramGenerator vdg;
 		vdg.setGenerateVoronoi(true);
 		vdg.setGenerateDelaunay(true);
-		vdg.generateVoronoi(uValues, vValues, uvSize, uMin, uMax, vMin, vMax, Constants::DistanceEpsilon, true);
+		vdg.generateVoronoi(uValues.data(), vValues.data(), uvSize, uMin, uMax, vMin, vMax, Constants::DistanceEpsilon, true);
 		std::vector<std::vector<int>> triangles = vdg.getTriangles();
-		delete[] uValues;
-		uValues = nullptr;
-		delete[] vValues;
-		vValues = nullptr;
 #pragma endregion
 		LN_Mesh mesh;
 		std::vector<XYZ> vertices(uvSize);
-- 
2.43.0


From 5547cfa2214b8be9c953953c90576ae0a3f33af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:01 +0000
Subject: [PATCH 31/42] fix: C API calls that return several curves or surfaces
 let the last one overwrite the others

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 23 +++++++++++++++++++++
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   | 10 ++++-----
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 29 ++++++++++++++++++++++++---
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..9ea6cb8 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -285,4 +285,27 @@ inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
     c.control_point_count = static_cast<int>(g_cp_flat_buffer.size());
     return c;
 }
+
+// Several curves returned by one call: each of them has buffers of its own.
+inline void ToCAPI(const std::vector<LNLib::LN_NurbsCurve>& curves, int count, LN_NurbsCurve_C* out) {
+    static thread_local std::vector<std::vector<double>> g_knot_buffers;
+    static thread_local std::vector<std::vector<XYZW_C>> g_cp_buffers;
+
+    g_knot_buffers.assign(count, std::vector<double>());
+    g_cp_buffers.assign(count, std::vector<XYZW_C>());
+    for (int i = 0; i < count; ++i) {
+        g_knot_buffers[i] = curves[i].KnotVector;
+        g_cp_buffers[i].reserve(curves[i].ControlPoints.size());
+        for (const auto& cp : curves[i].ControlPoints) {
+            g_cp_buffers[i].push_back({ cp.WX(), cp.WY(), cp.WZ(), cp.W() });
+        }
+    }
+    for (int i = 0; i < count; ++i) {
+        out[i].degree = curves[i].Degree;
+        out[i].knot_vector = g_knot_buffers[i].data();
+        out[i].knot_vector_count = static_cast<int>(g_knot_buffers[i].size());
+        out[i].control_points = g_cp_buffers[i].data();
+        out[i].control_point_count = static_cast<int>(g_cp_buffers[i].size());
+    }
+}
 #endif
\ No newline at end of file
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..778a4d9 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -300,8 +300,10 @@ int LNLIB_NURBSCUR_split_at(
 	LN_NurbsCurve left, right;
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
-		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		LN_NurbsCurve_C parts[2];
+		ToCAPI({ left, right }, 2, parts);
+		*out_left = parts[0];
+		*out_right = parts[1];
 	}
 	return ok ? 1 : 0;
 }
@@ -337,9 +339,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	int max_segments) {
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
-	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
-	}
+	ToCAPI(segments, n, out_segments);
 	return n;
 }
 
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..25bd56f 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -68,6 +68,31 @@ static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
 	return c;
 }
 
+// Several surfaces returned by one call: each of them has buffers of its own.
+static void ToCAPI(const std::vector<LN_NurbsSurface>& surfaces, int count, LN_NurbsSurface_C* out) {
+	static thread_local std::vector<std::vector<XYZW>> g_cp_flat_buffers;
+
+	g_surface_buffer.assign(surfaces.begin(), surfaces.begin() + count);
+	g_cp_flat_buffers.assign(count, std::vector<XYZW>());
+	for (int i = 0; i < count; ++i) {
+		for (const auto& row : g_surface_buffer[i].ControlPoints) {
+			g_cp_flat_buffers[i].insert(g_cp_flat_buffers[i].end(), row.begin(), row.end());
+		}
+	}
+	for (int i = 0; i < count; ++i) {
+		const LN_NurbsSurface& s = g_surface_buffer[i];
+		out[i].degree_u = s.DegreeU;
+		out[i].degree_v = s.DegreeV;
+		out[i].knot_vector_u = s.KnotVectorU.data();
+		out[i].knot_vector_count_u = static_cast<int>(s.KnotVectorU.size());
+		out[i].knot_vector_v = s.KnotVectorV.data();
+		out[i].knot_vector_count_v = static_cast<int>(s.KnotVectorV.size());
+		out[i].control_points = reinterpret_cast<const XYZW_C*>(g_cp_flat_buffers[i].data());
+		out[i].cp_rows = static_cast<int>(s.ControlPoints.size());
+		out[i].cp_cols = s.ControlPoints.empty() ? 0 : static_cast<int>(s.ControlPoints[0].size());
+	}
+}
+
 XYZ_C LNLIB_NURBSSUR_get_point_on_surface(LN_NurbsSurface_C surface, UV_C uv) {
 	return FromXYZ(NurbsSurface::GetPointOnSurface(FromCAPI(surface), ToUV(uv)));
 }
@@ -156,9 +181,7 @@ int LNLIB_NURBSSUR_reduce_degree(LN_NurbsSurface_C surface, int is_u_direction,
 int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurface_C* out_patches, int max_patches) {
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
-	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
-	}
+	ToCAPI(patches, n, out_patches);
 	return n;
 }
 
-- 
2.43.0


From 7c67fa34f267ae625487d2a86b0e75f011e72c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:01 +0000
Subject: [PATCH 32/42] fix: C API power_to_bezier_matrix copies from its
 uninitialised output instead of the result

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From 719eb7bfe61c3d693d91c587c193be568087302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:32 +0000
Subject: [PATCH 33/42] fix: volume Swap with the directions in the other order
 leaves the result to the caller's previous contents

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 03094b1..f8664f6 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1573,6 +1573,11 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int v = controlPoints[0].size();
 	int w = controlPoints[0][0].size();
 
+	if (direction > swap)
+	{
+		std::swap(direction, swap);
+	}
+
 	if (direction == VolumeDirection::U && swap == VolumeDirection::V)
 	{
 		result.DegreeU = degreeV;
-- 
2.43.0


From 0b83179a0a718f52fdd6c86d4ece666b471956e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:48 +0000
Subject: [PATCH 34/42] fix: curve Extend reads an empty curve when the
 extension arc cannot be created

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2796399..cdf2256 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3933,7 +3933,7 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 				endRad = atan2(y, x);
 			}
 
-			CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
+			if (!CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend)) return;
 			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
 			break;
 		}
-- 
2.43.0


From cd5385f887618c75d970128330e4226ef4c82c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:48 +0000
Subject: [PATCH 35/42] fix: surface InsertKnot of zero times reads past its
 control points (curve InsertKnot validates it)

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 8961b83..a46613e 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -556,6 +556,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
+	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 	if (isUDirection)
 	{
 		VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
-- 
2.43.0


From 296c50c24908a2b54f70c23353c3e01bcd04085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 36/42] fix: curve SplitAt next to a knot (within tolerance)
 builds a curve whose knots do not fit its control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cdf2256..372f1c6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1559,6 +1559,15 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	for (double knot : knotVector)
+	{
+		if (MathUtils::IsAlmostEqualTo(knot, parameter))
+		{
+			parameter = knot;
+			break;
+		}
+	}
+
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
-- 
2.43.0


From abf248193647850e3a61f9326dd1e70cf947f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:14 +0000
Subject: [PATCH 37/42] fix: GetParamOnCurve searches for ever when no
 parameter gives the length within tolerance

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 372f1c6..27f1f28 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -67,6 +67,7 @@ namespace LNLib
 	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
 	{
 		double middle = (start + end) / 2.0;
+		if (middle <= start || middle >= end) return middle;
 
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
@@ -4142,7 +4143,7 @@ std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& cur
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
 		bool isSplited = SplitAt(curve, param, left, right);
-		if (!isSplited) continue;
+		if (!isSplited) break;
 		param = GetParamOnCurve(right, givenLength, type);
 	}
 	return result;
-- 
2.43.0


From 2ff5a9d59ff271d0062fdaa6727b6dc06962e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 38/42] fix: knot vectors that differ by rounding only are made
 compatible past the ends of their control points

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 39 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index da5da76..3e3f5c6 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -45,6 +45,27 @@ namespace LNLib
 			InsertMidKnotCore(unqiueKnotVector, insert, limitNumber);
 		}
 	}
+
+	// Knots that are equal within tolerance are one knot, in one knot vector as well as in two that are made compatible.
+	std::map<double, int>::iterator FindKnot(std::map<double, int>& multiplicities, double knot)
+	{
+		auto it = multiplicities.lower_bound(knot);
+		if (it != multiplicities.end() && MathUtils::IsAlmostEqualTo(it->first, knot)) return it;
+		if (it != multiplicities.begin() && MathUtils::IsAlmostEqualTo((--it)->first, knot)) return it;
+		return multiplicities.end();
+	}
+
+	std::map<double, int> GetMultiplicities(const std::vector<double>& knotVector)
+	{
+		std::map<double, int> result;
+		for (double knot : knotVector)
+		{
+			auto it = FindKnot(result, knot);
+			if (it == result.end()) result.insert({ knot, 1 });
+			else ++it->second;
+		}
+		return result;
+	}
 }
 
 int LNLib::KnotVectorUtils::GetContinuity(int degree, const std::vector<double>& knotVector, double knot)
@@ -145,8 +166,8 @@ std::map<double, int> LNLib::KnotVectorUtils::GetInternalKnotMultiplicityMap(con
 
 void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& knotVector0, const std::vector<double>& knotVector1, std::vector<double>& insertElements0, std::vector<double>& insertElements1)
 {
-	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
-	std::map<double, int> map1 = GetKnotMultiplicityMap(knotVector1);
+	std::map<double, int> map0 = GetMultiplicities(knotVector0);
+	std::map<double, int> map1 = GetMultiplicities(knotVector1);
 
 	insertElements0.clear();
 	insertElements1.clear();
@@ -156,7 +177,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key0 = it->first;
 		int count0 = it->second;
 
-		auto got = map1.find(key0);
+		auto got = FindKnot(map1, key0);
 		if (got == map1.end())
 		{
 			for (int i = 0; i < count0; i++)
@@ -191,7 +212,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key1 = it->first;
 		int count1 = it->second;
 
-		auto got = map0.find(key1);
+		auto got = FindKnot(map0, key1);
 		if (got == map0.end())
 		{
 			for (int i = 0; i < count1; i++)
@@ -211,12 +232,12 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 	for (int i = 0; i < knotVectors.size(); i++)
 	{
 		auto kv = knotVectors[i];
-		std::map<double, int> map = GetKnotMultiplicityMap(kv);
+		std::map<double, int> map = GetMultiplicities(kv);
 		for (auto it = map.begin(); it != map.end(); ++it)
 		{
 			double key = it->first;
 			int count = it->second;
-			auto got = finalMap.find(key);
+			auto got = FindKnot(finalMap, key);
 			if (got == finalMap.end())
 			{
 				finalMap.insert({ key, count });
@@ -226,7 +247,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int currentCount = got->second;
 				if (currentCount < count)
 				{
-					finalMap[key] = count;
+					got->second = count;
 				}
 			}
 		}
@@ -236,7 +257,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 	for (int i = 0; i < knotVectors.size(); i++)
 	{
 		auto kv = knotVectors[i];
-		std::map<double, int> map = GetKnotMultiplicityMap(kv);
+		std::map<double, int> map = GetMultiplicities(kv);
 
 		std::vector<double> insertElements;
 		for (auto it = finalMap.begin(); it != finalMap.end(); ++it)
@@ -244,7 +265,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 			double key = it->first;
 			int count = it->second;
 
-			auto got = map.find(key);
+			auto got = FindKnot(map, key);
 			if (got == map.end())
 			{
 				for (int j = 0; j < count; j++)
-- 
2.43.0


From ea0f2b0a16a13b0831eef5e8214afb4058ce5196 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 03:47:20 +0000
Subject: [PATCH 39/42] fix: ProjectNormal loops for ever when the tangent
 vanishes at a knot

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 27f1f28..e62ead6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -372,6 +372,10 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 
 	std::vector<XYZ> Blist(size);
 	XYZ T0 = ComputeRationalCurveDerivatives(curve, 1, v0)[1].Normalize();
+	for (int i = 1; i <= m && T0.IsZero(); i++)
+	{
+		T0 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+	}
 
 	bool flag = true;
 	while (flag)
@@ -382,6 +386,11 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 		for (int i = 1; i <= m; i++)
 		{
 			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			if (Ti.IsZero())
+			{
+				Blist[i] = Blist[i - 1];
+				continue;
+			}
 
 			needReCal = Ti.CrossProduct(Blist[i - 1]).IsZero();
 			if (needReCal)
-- 
2.43.0


From d39b8f6553a92b18ac4fbd439577f93911fc18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 03:47:43 +0000
Subject: [PATCH 40/42] fix: GlobalApproximationByErrorBound writes past its
 control points when neighbouring points coincide

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e62ead6..c5abb15 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2915,21 +2915,22 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	int size = throughPoints.size();
 	std::vector<double> errors(size, 0.0);
 
-	std::vector<XYZW> controlPoints(size);
-	int m = (size-1) + 1 + 1;
-	std::vector<double> knotVector(m + 1);
+	std::vector<XYZW> controlPoints;
+	std::vector<double> knotVector = { 0 };
 
-	for (int i = 0; i < size; i++) 
-	{
-		knotVector[i + 1] = uk[i];
-	}
-	knotVector[0] = 0;
-	knotVector[knotVector.size() - 1] = 1.0;
-	
 	for (int i = 0; i < size; i++)
 	{
-		controlPoints[i] = XYZW(throughPoints[i],1);
+		if (i > 0 && MathUtils::IsAlmostEqualTo(uk[i], knotVector.back()))
+		{
+			// A point that repeats its predecessor would give a double knot.
+			continue;
+		}
+		knotVector.emplace_back(uk[i]);
+		controlPoints.emplace_back(XYZW(throughPoints[i], 1));
 	}
+	knotVector.back() = 1.0;
+	knotVector.emplace_back(1.0);
+	controlPoints.back() = XYZW(throughPoints[size - 1], 1);
 
 	LN_NurbsCurve tc;
 	tc.Degree = 1;
-- 
2.43.0


From c3aa6debd76464329c5f34745171fcbb0d8793b6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 03:47:53 +0000
Subject: [PATCH 41/42] fix: the cubic equation solver iterates for ever when
 Newton's method cycles

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..f39e725 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -22,6 +22,7 @@
 #include <Eigen/SparseLU>
 #include <Eigen/Sparse>
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -126,11 +127,24 @@ double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, dou
     double result;
     double initial = 0.001;
     result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
-    while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
+    int maxIterations = 100;
+    for (int i = 0; i < maxIterations && MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon); i++)
     {
         initial = result;
         result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
     }
+    if (MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon) && cubic != 0.0)
+    {
+        // Newton's method cycles: bisect between bounds of the real roots.
+        double high = 1.0 + std::max({ std::abs(quadratic), std::abs(linear), std::abs(constant) }) / std::abs(cubic);
+        double low = -high;
+        for (int i = 0; i < maxIterations; i++)
+        {
+            result = 0.5 * (low + high);
+            double value = ((cubic * result + quadratic) * result + linear) * result + constant;
+            ((value > 0.0) == (cubic > 0.0) ? high : low) = result;
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From 7d8a02160969679c526867cf433b82c65d68afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 42/42] fix: LeastSquaresApproximation writes past an empty
 array when there are no interior control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c5abb15..971a2a5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2301,6 +2301,7 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 {
 	VALIDATE_ARGUMENT(degree >= 0 && degree <= Constants::NURBSMaxDegree, "degree", "Degree must be greater than or equal zero and not exceed the maximun degree.");
 	VALIDATE_ARGUMENT(controlPointsCount > 0, "controlPointsCount", "controlPointsCount must be greater than zero.");
+	VALIDATE_ARGUMENT(controlPointsCount > degree, "controlPointsCount", "controlPointsCount must be greater than degree.");
 
 	int n = controlPointsCount - 1;
 	int m = throughPoints.size() - 1;
@@ -2319,6 +2320,15 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n == 1)
+	{
+		// No interior control points to solve for.
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0

