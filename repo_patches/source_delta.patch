From 2b098b6deb0755c9ebb01ecb0d8adc7a1a50c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:43 +0000
Subject: [PATCH 001/101] fix: Polynomials::Bernstein evaluates every interior
 index

---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From bc1e60f4ff640fbde2551dff80db15f2b03bec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 002/101] fix: BezierCurve::GetPointOnQuadraticArc divides each
 control point by its own weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..fb3fb51 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From 315e75925cf0883da3fcf739df820d8d690aa361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 003/101] fix: curvature, normal and torsion do not assume
 arc-length parametrisation when |C'| is 1

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..e2767bc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From d9959c5664a59f9d25cff580a19c0173281d9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 004/101] fix: NurbsCurve::InsertKnot inserts up to full
 multiplicity and always sets the result

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e2767bc..3b4c181 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -430,10 +430,11 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	if (originMultiplicity + times > degree + 1)
 	{
-		times = degree - 1 - originMultiplicity;
+		times = degree - originMultiplicity;
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From 08351de10e77faddf25e5d11f1c46f892d799a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:22 +0000
Subject: [PATCH 005/101] fix: DecomposeToBeziers terminates on interior knots
 of full multiplicity

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3b4c181..0613e0e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -690,18 +690,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From 4b6abb359bf8884685db710ac014db898f3175af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 006/101] fix: knot removal restores the curve when the knot is
 removable within tolerance

RemoveKnot used stale control points, shortened the knot vector by the requested
instead of the removed count, and accepted absent or end knots.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 119 ++++++++++++++++++++++--
 1 file changed, 109 insertions(+), 10 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 0613e0e..65ddc11 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -116,6 +116,101 @@ namespace LNLib
 		}
 	}
 
+	// Algorithm A5.8: remove an interior knot as often as the curve stays within tolerance.
+	bool RemoveKnotWithinTolerance(const LN_NurbsCurve& curve, double removeKnot, int times, LN_NurbsCurve& result)
+	{
+		int degree = curve.Degree;
+		const auto& knotVector = curve.KnotVector;
+		double tol = ValidationUtils::ComputeCurveModifyTolerance(curve.ControlPoints);
+
+		int order = degree + 1;
+		int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
+		int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
+		int first = r - degree;
+		int last = r - s;
+
+		std::vector<XYZW> points = curve.ControlPoints;
+		std::vector<XYZW> temp(2 * degree + 1);
+
+		int t = 0;
+		for (t = 0; t < times; t++)
+		{
+			int off = first - 1;
+			temp[0] = points[off];
+			temp[last + 1 - off] = points[last + 1];
+			int i = first;
+			int j = last;
+			int ii = 1;
+			int jj = last - off;
+
+			while (j - i > t)
+			{
+				double alphai = (removeKnot - knotVector[i]) / (knotVector[i + order + t] - knotVector[i]);
+				double alphaj = (removeKnot - knotVector[j - t]) / (knotVector[j + order] - knotVector[j - t]);
+				temp[ii] = (points[i] - (1.0 - alphai) * temp[ii - 1]) / alphai;
+				temp[jj] = (points[j] - alphaj * temp[jj + 1]) / (1.0 - alphaj);
+				i++;
+				ii++;
+				j--;
+				jj--;
+			}
+
+			double distance = 0.0;
+			if (j - i < t)
+			{
+				distance = temp[ii - 1].Distance(temp[jj + 1]);
+			}
+			else
+			{
+				double alphai = (removeKnot - knotVector[i]) / (knotVector[i + order + t] - knotVector[i]);
+				distance = points[i].Distance(alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]);
+			}
+			if (MathUtils::IsGreaterThan(distance, tol))
+			{
+				break;
+			}
+
+			i = first;
+			j = last;
+			while (j - i > t)
+			{
+				points[i] = temp[i - off];
+				points[j] = temp[j - off];
+				i++;
+				j--;
+			}
+			first--;
+			last++;
+		}
+		if (t == 0)
+		{
+			return false;
+		}
+
+		int j = (2 * r - s - degree) / 2;
+		int i = j;
+		for (int k = 1; k < t; k++)
+		{
+			if (k % 2 == 1)
+			{
+				i++;
+			}
+			else
+			{
+				j--;
+			}
+		}
+		points.erase(points.begin() + j, points.begin() + (i + 1));
+
+		std::vector<double> restKnotVector = knotVector;
+		restKnotVector.erase(restKnotVector.begin() + (r - t + 1), restKnotVector.begin() + (r + 1));
+
+		result.Degree = degree;
+		result.KnotVector = restKnotVector;
+		result.ControlPoints = points;
+		return true;
+	}
+
 	void OffsetByTillerAndHanson(const LN_NurbsCurve& curve, double offset, LN_NurbsCurve& result)
 	{
 		int degree = curve.Degree;
@@ -723,20 +818,21 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
 
-	int first = r - degree;
-	int last = r - s;
-
-	std::vector<double> restKnotVector = knotVector;
-	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
+	if (s == 0 ||
+		MathUtils::IsAlmostEqualTo(removeKnot, knotVector[0]) ||
+		MathUtils::IsAlmostEqualTo(removeKnot, knotVector[knotVector.size() - 1]))
 	{
-		restKnotVector[k - times] = restKnotVector[k];
+		return false;
 	}
-	for (int i = 0; i < times; i++)
+	times = std::min(times, s);
+	if (RemoveKnotWithinTolerance(curve, removeKnot, times, result))
 	{
-		restKnotVector.pop_back();
+		return true;
 	}
 
+	int first = r - degree;
+	int last = r - s;
+
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	std::vector<XYZW> temp(2 * degree + 1);
 
@@ -808,6 +904,9 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 
+	std::vector<double> restKnotVector = knotVector;
+	restKnotVector.erase(restKnotVector.begin() + (r - t + 1), restKnotVector.begin() + (r + 1));
+
 	int j = (2 * r - s - degree) / 2;
 	int i = j;
 
@@ -853,7 +952,7 @@ void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_Nurb
 			if (currentMultiplicity <= 1) continue;
 
 			LN_NurbsCurve tempResult;
-			if (NurbsCurve::RemoveKnot(result, u, 1, tempResult))
+			if (RemoveKnotWithinTolerance(result, u, 1, tempResult))
 			{
 				result = tempResult;
 				changed = true;
-- 
2.43.0


From 6741d1d4b75f722d1f985f5d6928343f5a6abadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:36 +0000
Subject: [PATCH 007/101] fix: NurbsCurve::ElevateDegree sizes the result
 correctly with repeated interior knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 65ddc11..d9d38c2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1159,6 +1159,10 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 		}
 	}
 
+	nh = mh - ph - 1;
+	updatedControlPoints.resize(nh + 1);
+	updatedKnotVector.resize(nh + 1 + ph + 1);
+
 	result.Degree = ph;
 	result.KnotVector = updatedKnotVector;
 	result.ControlPoints = updatedControlPoints;
-- 
2.43.0


From 1683aab0957b4d71669dad8b49e2400af73ad8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:36 +0000
Subject: [PATCH 008/101] fix: ReduceDegree refuses degree one curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d9d38c2..699cc82 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1178,7 +1178,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 
 	int size = controlPoints.size();
 	bool isBezier = ValidationUtils::IsValidBezier(degree, size);
-	if (!isBezier) return false;
+	if (!isBezier || !ValidationUtils::IsValidDegreeReduction(degree)) return false;
 
 	int r = floor((degree - 1) / 2);
 	std::vector<XYZW> updatedControlPoints(degree);
-- 
2.43.0


From 03004759a0a05763b8cc4cef5716d71d3cbf2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:08 +0000
Subject: [PATCH 009/101] fix: take absolute values of doubles with std::abs

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 10 +++++-----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 699cc82..86315a2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1568,7 +1568,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3379,8 +3379,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3424,7 +3424,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..001feda 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1602,7 +1602,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1619,8 +1619,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 34c123ff4e9315ea7663ff00c63e320b314de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:06 +0000
Subject: [PATCH 010/101] fix: NurbsCurve::Extract returns the part of the
 curve between the parameters

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 86315a2..b3204d5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1672,27 +1672,17 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
 	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, startParameter, left, right))
+	{
+		tempCurve = right;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, endParameter, left, right))
+	{
+		tempCurve = left;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 63c1e995866ac460544685a3006790c4b2cd7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:03 +0000
Subject: [PATCH 011/101] fix: ToClampCurve clamps the right end of unclamped
 curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b3204d5..2dd132e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -522,6 +522,11 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
+	// At the right end of an unclamped curve the span found ends at the knot, it has to start there.
+	while (knotSpanIndex + 2 < knotVector.size() && MathUtils::IsAlmostEqualTo(knotVector[knotSpanIndex + 1], insertKnot))
+	{
+		knotSpanIndex++;
+	}
 
 	if (originMultiplicity + times > degree + 1)
 	{
-- 
2.43.0


From 8d07fd3c298e66b2474738d88fe5908495cb35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:26 +0000
Subject: [PATCH 012/101] fix: IsClosed looks at the ends of the domain and
 does not call open clamped curves closed

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2dd132e..d9fa995 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1274,8 +1274,8 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 {
 	std::vector<double> knotVector = curve.KnotVector;
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	double first = knotVector[curve.Degree];
+	double end = knotVector[knotVector.size() - curve.Degree - 1];
 
 	XYZ startPoint = GetPointOnCurve(curve, first);
 	XYZ endPoint = GetPointOnCurve(curve, end);
@@ -1283,6 +1283,7 @@ bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 	double distance = startPoint.Distance(endPoint);
 	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
 	if (isMatch) return true;
+	if (IsClamp(curve)) return false;
 
 	std::vector<XYZW> controlPoints = curve.ControlPoints;
 	int n = controlPoints.size() - 1;
@@ -1302,7 +1303,7 @@ bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 	}
 
 	if (!flag) return false;
-	if (index == 0) return true;
+	if (index + 1 < curve.Degree) return false;
 	for (int i = index; i >= 0; i--)
 	{
 		XYZ current = controlPoints[i].ToXYZ(true);
-- 
2.43.0


From 75ede298376a867491c5261acf70e46ceafda740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:03 +0000
Subject: [PATCH 013/101] fix: CreateArc places the middle control points for
 ellipses and small sweeps

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d9fa995..e3b2d89 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1898,7 +1898,6 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1908,19 +1907,11 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
-
-		double param0, param2 = 0.0;
-		XYZ P1;
-		CurveCurveIntersectionType type = Intersection::ComputeRays(P0, T0, P2, T2, param0, param2, P1);
-		if (type != CurveCurveIntersectionType::Intersecting) return false;
+		// The tangents at both ends of a segment meet above its middle angle.
+		double middle = angle - dtheta / 2.0;
+		XYZ P1 = center + (xRadius * cos(middle) * nX + yRadius * sin(middle) * nY) / w1;
 		controlPoints[index + 1] = XYZW(P1, w1);
 		index = index + 2;
-		if (i < narcs)
-		{
-			P0 = P2;
-			T0 = T2;
-		}
 	}
 
 	int j = 2 * narcs + 1;
-- 
2.43.0


From 7c898e08b4eefbdf38bfd80af7cb41d96cf4c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:32 +0000
Subject: [PATCH 014/101] fix: CreateOpenConic and SplitArc split conics with
 finite control points and report the weight

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 +++++++++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e3b2d89..bf0dcb2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1989,12 +1989,21 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	if (MathUtils::IsAlmostEqualTo(projectPointWeight, 0.0))
+	{
+		// infinite control point
+		insertPointAtStartSide = start + projectPoint;
+		insertPointAtEndSide = end + projectPoint;
+	}
+	else
+	{
+		insertPointAtStartSide = (start + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+		insertPointAtEndSide = (end + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+	}
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From f4c900728cdd4cdf00b0aafb86886f95e5ec67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:51 +0000
Subject: [PATCH 015/101] fix: ComputeTangent is finite for collinear points

---
 src/LNLib/Algorithm/Interpolation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..d20495d 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -26,7 +26,13 @@ namespace LNLib
 
 	double Getak(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
 	{
-		return (qk_1.CrossProduct(qk)).Length() / ((qk_1.CrossProduct(qk).Length()) + (qk1.CrossProduct(qk2)).Length());
+		double left = qk_1.CrossProduct(qk).Length();
+		double right = qk1.CrossProduct(qk2).Length();
+		if (MathUtils::IsAlmostEqualTo(left + right, 0.0))
+		{
+			return 0.5;
+		}
+		return left / (left + right);
 	}
 
 	XYZ GetTk(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
-- 
2.43.0


From 8f2689c3e84e2f677da9ca7676dc6c24aaa181c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:51 +0000
Subject: [PATCH 016/101] fix: ComputeTangent weights the neighbouring chords
 as the interpolating parabola does

---
 src/LNLib/Algorithm/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index d20495d..f9ebbe7 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -411,13 +411,13 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
-			double a = w2 / (w1 + w2);
+			double a = w1 / (w1 + w2);
 			tangents[i] = a * (dP[i - 1] / du[i - 1]) + (1 - a) * (dP[i] / du[i]);
 		}
 	}
-- 
2.43.0


From 350af4b5123972701fae668bed65a1f5f2926f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:51 +0000
Subject: [PATCH 017/101] fix: CubicLocalInterpolation passes through the
 points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index bf0dcb2..306b5dd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2342,10 +2342,14 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	double length = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		length += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = length / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From ab7e75282f560e7d78c01a12e674f641b303f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:11 +0000
Subject: [PATCH 018/101] fix: GlobalInterpolation with tangents places knots
 for which points and tangents are met

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 51 +++----------------------
 1 file changed, 6 insertions(+), 45 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 306b5dd..30b96d5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2186,55 +2186,16 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 	int size = static_cast<int>(throughPoints.size());
 	int n = 2 * size;
 	std::vector<XYZW> controlPoints(n);
-	std::vector<double> knotVector(n + degree + 1, 0.0);
 
 	std::vector<double> uk = Interpolation::GetChordParameterization(throughPoints);
-	double totalLength = uk.back();
-
-	if (degree == 2)
-	{
-		for (int i = 0; i <= degree; ++i)
-		{
-			knotVector[i] = 0.0;
-			knotVector[knotVector.size() - 1 - i] = 1.0;
-		}
-		for (int i = 0; i < size - 1; ++i)
-		{
-			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
-		}
-	}
-	else if (degree == 3)
-	{
-		for (int i = 0; i <= degree; ++i)
-		{
-			knotVector[i] = 0.0;
-			knotVector[knotVector.size() - 1 - i] = 1.0;
-		}
-		knotVector[4] = uk[1];
-		knotVector[5] = uk[1];
-		for (int i = 1; i < size - 2; ++i)
-		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
-		}
-		knotVector[knotVector.size() - 6] = uk[size - 2];
-		knotVector[knotVector.size() - 5] = uk[size - 2];
-	}
-	else
+	std::vector<double> ukExtended;
+	ukExtended.reserve(n);
+	for (int i = 0; i < size; ++i)
 	{
-		std::vector<double> ukExtended;
-		ukExtended.reserve(2 * size);
-		for (int i = 0; i < size; ++i)
-		{
-			ukExtended.push_back(uk[i]);
-			if (i < size - 1)
-				ukExtended.push_back((uk[i] + uk[i + 1]) / 2.0);
-		}
-		while (static_cast<int>(ukExtended.size()) < n)
-			ukExtended.push_back(uk.back());
-		knotVector = Interpolation::AverageKnotVector(degree, ukExtended);
+		ukExtended.push_back(uk[i]);
+		ukExtended.push_back(uk[i]);
 	}
+	std::vector<double> knotVector = Interpolation::AverageKnotVector(degree, ukExtended);
 
 	std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0));
 	std::vector<std::vector<double>> right(n, std::vector<double>(3, 0.0));
-- 
2.43.0


From c523f9e632f9f2b9d8f0a3d168a6c170c45a93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:50 +0000
Subject: [PATCH 019/101] fix: weighted least squares approximation applies
 each weight once

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 30b96d5..2e783ea 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2544,7 +2544,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2576,7 +2576,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From 591162432226a80163649f268ea1a5397e2f8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:04 +0000
Subject: [PATCH 020/101] fix: GlobalApproximationByErrorBound accepts degree
 one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2e783ea..922d373 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2957,8 +2957,11 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	tc.KnotVector = knotVector;
 	tc.ControlPoints = controlPoints;
 
-	LN_NurbsCurve newtc;
-	ElevateDegree(tc, degree - 1, newtc);
+	LN_NurbsCurve newtc = tc;
+	if (degree > 1)
+	{
+		ElevateDegree(tc, degree - 1, newtc);
+	}
 	RemoveKnotsByGivenBound(newtc, uk, errors, maxError, result);
 }
 
-- 
2.43.0


From f39653a2d73989c4a5ef7169fed63cf539c2a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 021/101] fix: RemoveKnotsByGivenBound accounts the error of
 every removal at every parameter

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 203 ++++--------------------
 1 file changed, 34 insertions(+), 169 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 922d373..93874fb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -117,12 +117,10 @@ namespace LNLib
 	}
 
 	// Algorithm A5.8: remove an interior knot as often as the curve stays within tolerance.
-	bool RemoveKnotWithinTolerance(const LN_NurbsCurve& curve, double removeKnot, int times, LN_NurbsCurve& result)
+	bool RemoveKnotWithinTolerance(const LN_NurbsCurve& curve, double removeKnot, int times, double tol, LN_NurbsCurve& result)
 	{
 		int degree = curve.Degree;
 		const auto& knotVector = curve.KnotVector;
-		double tol = ValidationUtils::ComputeCurveModifyTolerance(curve.ControlPoints);
-
 		int order = degree + 1;
 		int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 		int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
@@ -830,7 +828,7 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 	times = std::min(times, s);
-	if (RemoveKnotWithinTolerance(curve, removeKnot, times, result))
+	if (RemoveKnotWithinTolerance(curve, removeKnot, times, tol, result))
 	{
 		return true;
 	}
@@ -957,7 +955,7 @@ void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_Nurb
 			if (currentMultiplicity <= 1) continue;
 
 			LN_NurbsCurve tempResult;
-			if (RemoveKnotWithinTolerance(result, u, 1, tempResult))
+			if (RemoveKnotWithinTolerance(result, u, 1, ValidationUtils::ComputeCurveModifyTolerance(result.ControlPoints), tempResult))
 			{
 				result = tempResult;
 				changed = true;
@@ -2730,190 +2728,59 @@ void LNLib::NurbsCurve::RemoveKnotsByGivenBound(const LN_NurbsCurve& curve, cons
 	VALIDATE_ARGUMENT(params.size() == errors.size(), "errors", "Errors size must be equal to params size.");
 	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(maxError,0.0), "maxError", "Maxerror must be greater than zero.");
 
-	int knotSize = knotVector.size();
-	std::vector<double> Br(knotSize, Constants::MaxDistance);
-	std::vector<int> S(knotSize, 0);
-	std::vector<int> Nl(knotSize);
-	std::vector<int> Nr(knotSize, params.size() - 1);
-
-	std::vector<double> uk = params;
-	int ukSize = uk.size();
-	std::vector<double> NewError(ukSize);
+	int ukSize = params.size();
 	std::vector<double> temp(ukSize);
 
-	int i, BrMinIndex = 0;
-	int r, s, Rstart, Rend, k;
-	double BrMin, u;
-
-	int controlPointsSize = controlPoints.size();
-	int n = controlPointsSize - 1;
-	s = 1;
-	for (int i = degree + 1; i < controlPointsSize; i++)
-	{
-		if (MathUtils::IsLessThan(knotVector[i],knotVector[i + 1]))
-		{
-			Br[i] = ComputerRemoveKnotErrorBound(curve, i);
-			S[i] = Polynomials::GetKnotMultiplicity(knotVector, knotVector[i]);
-			s = 1;
-		}
-		else {
-			Br[i] = Constants::MaxDistance;
-			S[i] = 1;
-			s++;
-		}
-	}
-
-	Nl[0] = 0;
-	for (int i = 0; i < ukSize; i++)
+	LN_NurbsCurve tc = curve;
+	std::vector<double> Br;
+	auto computeBounds = [&]()
 	{
-		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, uk[i]);
-		if (!Nl[spanIndex])
+		Br.assign(tc.KnotVector.size(), Constants::MaxDistance);
+		for (int i = degree + 1; i < tc.ControlPoints.size(); i++)
 		{
-			Nl[spanIndex] = i;
-		}
-		if (i + 1 < ukSize)
-		{
-			Nr[spanIndex] = i + 1;
-		}
-	}
-
-	std::vector<double> tempU = knotVector;
-	std::vector<XYZW> tempCP = controlPoints;
-
-	std::vector<double> updatedKnotVector;
-	std::vector<XYZW> updatedControlPoints;
-
-	while (1)
-	{
-		double minStandard = Constants::MaxDistance;
-		for (int i = 0; i < Br.size(); i++)
-		{
-			if (MathUtils::IsLessThan(Br[i],minStandard))
+			if (MathUtils::IsLessThan(tc.KnotVector[i], tc.KnotVector[i + 1]))
 			{
-				BrMinIndex = i;
-				minStandard = Br[i];
+				Br[i] = ComputerRemoveKnotErrorBound(tc, i);
 			}
 		}
-		BrMin = Br[BrMinIndex];
+	};
+	computeBounds();
 
-		if (BrMin == Constants::MaxDistance)
+	while (tc.ControlPoints.size() > degree + 1)
+	{
+		int r = std::min_element(Br.begin(), Br.end()) - Br.begin();
+		if (Br[r] == Constants::MaxDistance)
 		{
-			updatedKnotVector = tempU;
-			updatedControlPoints = tempCP;
 			break;
 		}
-		r = BrMinIndex;
-		s = S[BrMinIndex];
-
-		Rstart = std::max(r - degree, degree + 1);
-		Rend = std::min(r + degree - S[r + degree] + 1, n);
-		Rstart = Nl[Rstart];
-		Rend = Nr[Rend];
 
+		const std::vector<double>& U = tc.KnotVector;
+		int s = Polynomials::GetKnotMultiplicity(U, U[r]);
 		bool removable = true;
-		for (i = Rstart; i <= Rend; i++)
+		for (int i = 0; i < ukSize && removable; i++)
 		{
-			double a;
+			double newError = 0.0;
 			if ((degree + s) % 2)
 			{
-				u = uk[i];
-				k = (degree + s + 1) / 2;
-				a = tempU[r] - tempU[r - k + 1];
-				a /= tempU[r - k + degree + 2] - tempU[r - k + 1];
-				NewError[i] = (1.0 - a) * Br[r] * Polynomials::OneBasisFunction(r - k + 1, degree, tempU, u);
+				int k = (degree + s + 1) / 2;
+				double a = (U[r] - U[r - k]) / (U[r - k + degree + 1] - U[r - k]);
+				newError = a * Br[r] * Polynomials::OneBasisFunction(r - k, degree, U, params[i]);
 			}
 			else
 			{
-				u = uk[i];
-				k = (degree + s) / 2;
-				NewError[i] = Br[r] * Polynomials::OneBasisFunction(r - k, degree, tempU, u);
-			}
-			temp[i] = NewError[i] + errors[i];
-			if (MathUtils::IsGreaterThan(temp[i],maxError))
-			{
-				removable = false;
-				Br[r] = Constants::MaxDistance;
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
+				int k = (degree + s) / 2;
+				newError = Br[r] * Polynomials::OneBasisFunction(r - k, degree, U, params[i]);
 			}
+			temp[i] = newError + errors[i];
+			removable = !MathUtils::IsGreaterThan(temp[i], maxError);
 		}
 
-		if (removable)
+		LN_NurbsCurve newtc;
+		if (removable && RemoveKnotWithinTolerance(tc, U[r], 1, Constants::MaxDistance, newtc))
 		{
-			LN_NurbsCurve tc;
-			tc.Degree = degree;
-			tc.KnotVector = tempU;
-			tc.ControlPoints = tempCP;
-
-			LN_NurbsCurve newtc;
-			RemoveKnot(tc, tempU[r], 1, newtc);
-			std::vector<double> tempNewU = newtc.KnotVector;
-			std::vector<XYZW> tempNewCP = newtc.ControlPoints;
-
-			controlPointsSize = tempNewCP.size();
-			for (int i = Rstart; i <= Rend; i++)
-			{
-				errors[i] = temp[i];
-			}
-
-			if (controlPointsSize <= degree + 1)
-			{
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
-			}
-
-			Rstart = Nl[r - degree - 1];
-			Rend = Nr[r - S[r]];
-			int spanIndex = 0;
-			int oldspanIndex = -1;
-			for (int k = Rstart; k <= Rend; k++)
-			{
-				spanIndex = Polynomials::GetKnotSpanIndex(degree, tempNewU, uk[k]);
-				if (spanIndex != oldspanIndex)
-				{
-					Nl[spanIndex] = k;
-				}
-				if (k + 1 < ukSize)
-				{
-					Nr[spanIndex] = k + 1;
-				}
-				oldspanIndex = spanIndex;
-			}
-			for (int k = r - S[r] + 1; k < Nl.size() - 1; k++) {
-				Nl[k] = Nl[k + 1];
-				Nr[k] = Nr[k + 1];
-			}
-			Nl.resize(Nl.size() - 1);
-			Nr.resize(Nr.size() - 1);
-
-			Rstart = std::max(r - degree, degree + 1);
-			Rend = std::min(r + degree - S[r] + 1, controlPointsSize);
-			s = S[Rstart];
-			for (i = Rstart; i <= Rend; i++)
-			{
-				if (MathUtils::IsLessThan(tempNewU[i],tempNewU[i + 1]))
-				{
-					Br[i] = ComputerRemoveKnotErrorBound(newtc, i);
-					S[i] = s;
-					s = 1;
-				}
-				else {
-					Br[i] = Constants::MaxDistance;
-					S[i] = 1;
-					s++;
-				}
-			}
-			for (int i = Rend + 1; i < Br.size() - 1; i++)
-			{
-				Br[i] = Br[i + 1];
-				S[i] = S[i + 1];
-			}
-			Br.resize(Br.size() - 1);
-
-			tempU = tempNewU;
-			tempCP = tempNewCP;
+			errors = temp;
+			tc = newtc;
+			computeBounds();
 		}
 		else
 		{
@@ -2921,9 +2788,7 @@ void LNLib::NurbsCurve::RemoveKnotsByGivenBound(const LN_NurbsCurve& curve, cons
 		}
 	}
 
-	result.Degree = degree;
-	result.KnotVector = updatedKnotVector;
-	result.ControlPoints = updatedControlPoints;
+	result = tc;
 }
 
 void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::vector<XYZ>& throughPoints, double maxError, LN_NurbsCurve& result)
-- 
2.43.0


From 497b596651f6ce6fcb427478df6dc76d29febf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:39 +0000
Subject: [PATCH 022/101] fix: FitWithConic averages the weights of the conics
 through the points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 93874fb..3faff39 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2877,7 +2877,7 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
 			s = s + wi / (1 + wi);
 		}
-- 
2.43.0


From 24ffc0c09bc138080f6a63bb6eb017cbb1411452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:22 +0000
Subject: [PATCH 023/101] fix: FitWithCubic fits the points between the given
 indices within the error

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 79 +++++++++++--------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3faff39..7ec0a24 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2953,7 +2953,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	int dk = endPointIndex - startPointIndex;
 	bool isLine = true;
 	XYZ tempStandard(0, 0, 0);
-	for (int i = startPointIndex; i < dk + 1; i++)
+	for (int i = startPointIndex + 1; i <= endPointIndex; i++)
 	{
 		XYZ tp = throughPoints[i];
 		XYZ direction = (tp - startPoint).Normalize();
@@ -2978,7 +2978,8 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		middleControlPoints.emplace_back(P2);
 		return true;
 	}
-	std::vector<XYZ> newThroughPoints(endPointIndex - startPointIndex + 1);
+	std::vector<XYZ> newThroughPoints;
+	newThroughPoints.reserve(dk + 1);
 	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		newThroughPoints.emplace_back(throughPoints[i]);
@@ -3000,19 +3001,16 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 
 			XYZ a1 = 3 * pow(s, 2) * t * startTangent;
 			XYZ b1 = 3 * s * pow(t, 2) * endTangent;
-			XYZ c1 = throughPoints[k] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
+			XYZ c1 = throughPoints[k + startPointIndex] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
 
-			double alk = (uh[k] - uh[k - 1]) / (uh[k + 1] - uh[k - 1]);
-			XYZ dk = (throughPoints[k] - throughPoints[k - 1]) / (uh[k] - uh[k - 1]);
-			XYZ dk1 = (throughPoints[k + 1] - throughPoints[k]) / (uh[k + 1] - uh[k]);
-			XYZ Dk = ((1 - alk) * dk + alk * dk1).Normalize();
-
-			XYZ a2 = s * (s - 2 * t) * (Dk.CrossProduct(startTangent));
-			XYZ b2 = t * (2 * s - t) * (Dk.CrossProduct(endTangent));
-			XYZ c2 = 2 * s * t * (Dk.CrossProduct(startPoint - endPoint));
-
-			ak = (c1 * b2 - c2 * b1) / (a1 * b2 - a2 * b1);
-			bk = (c1 * a2 - c2 * a1) / (b1 * a2 - b2 * a1);
+			XYZ normal = a1.CrossProduct(b1);
+			double square = normal.SqrLength();
+			if (MathUtils::IsLessThanOrEqual(square, 0.0))
+			{
+				return false;
+			}
+			ak = c1.CrossProduct(b1).DotProduct(normal) / square;
+			bk = a1.CrossProduct(c1).DotProduct(normal) / square;
 
 			if (MathUtils::IsGreaterThan(ak, 0.0) &&
 				MathUtils::IsLessThan(bk, 0.0))
@@ -3027,31 +3025,31 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		}
 		else
 		{
-			XYZ Pd(0, 0, 0);
-			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], startTangent, Pd);
-			if (!(type0 == LinePlaneIntersectionType::Intersecting)) continue;
+			if (!(type == LinePlaneIntersectionType::Intersecting)) return false;
+			XYZ Pd = intersectPoint;
 			double param0 = 0.0; double param1 = 0.0;
 			XYZ Pc(0, 0, 0);
 			CurveCurveIntersectionType type1 = Intersection::ComputeRays(startPoint, endPoint - startPoint, Pd, startTangent, param0, param1, Pc);
-			if (!(type1 == CurveCurveIntersectionType::Intersecting)) continue;
-			double gamma = Pc.Distance(endPoint) / startPoint.Distance(endPoint);
+			if (!(type1 == CurveCurveIntersectionType::Intersecting)) return false;
+			XYZ chord = endPoint - startPoint;
+			double gamma = (endPoint - Pc).DotProduct(chord) / chord.SqrLength();
 			if (MathUtils::IsLessThan(gamma, 0.0) || MathUtils::IsGreaterThan(gamma, 1.0))
 			{
 				return false;
 			}
-			uh[k] = MathUtils::ComputerCubicEquationsWithOneVariable(2, -3, 0, 1 - gamma);
-			if (MathUtils::IsLessThan(uh[k], 0.0) || MathUtils::IsGreaterThan(uh[k], 1.0))
+			// Root in [0,1] of 2 * u^3 - 3 * u^2 + 1 - gamma.
+			uh[k] = 0.5 - std::sin(std::asin(std::max(-1.0, std::min(1.0, 2 * gamma - 1))) / 3.0);
+			double b13 = Polynomials::Bernstein(1, 3, uh[k]);
+			double b23 = Polynomials::Bernstein(2, 3, uh[k]);
+			if (MathUtils::IsAlmostEqualTo(b13, 0.0) || MathUtils::IsAlmostEqualTo(b23, 0.0))
 			{
 				return false;
 			}
-			else
+			alphak[k] = (Pd - Pc).DotProduct(startTangent) / startTangent.SqrLength() / b13;
+			betak[k] = (throughPoints[k + startPointIndex] - Pd).DotProduct(endTangent) / endTangent.SqrLength() / b23;
+			if (!MathUtils::IsGreaterThan(alphak[k], 0.0) || !MathUtils::IsLessThan(betak[k], 0.0))
 			{
-				double a = Pc.Distance(Pd);
-				double b = -Pd.Distance(throughPoints[k + startPointIndex]);
-				double b13 = Polynomials::Bernstein(1, 3, uh[k]);
-				double b23 = Polynomials::Bernstein(2, 3, uh[k]);
-				alphak[k] = a / b13;
-				betak[k] = b / b23;
+				return false;
 			}
 		}
 	}
@@ -3071,24 +3069,17 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	for (int k = 1; k < dk; k++)
 	{
 		double u = uh[k];
-		double deltaAk = alphak[k] - alpha;
-		double deltaBk = betak[k] - beta;
-		double e = (deltaAk * Polynomials::Bernstein(1, 3, u) * startTangent).Distance(deltaBk * Polynomials::Bernstein(2, 3, u) * endTangent);
-		if (MathUtils::IsLessThanOrEqual(e, maxError)) continue;
-		else
-		{
-			std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
+		std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
 
-			LN_BezierCurve<XYZ> bezierCurve;
-			bezierCurve.Degree = 3;
-			bezierCurve.ControlPoints = cps;
+		LN_BezierCurve<XYZ> bezierCurve;
+		bezierCurve.Degree = 3;
+		bezierCurve.ControlPoints = cps;
 
-			XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
-			double ek = throughPoints[startPointIndex + k].Distance(p);
-			if (MathUtils::IsGreaterThan(ek, maxError))
-			{
-				return false;
-			}
+		XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
+		double ek = throughPoints[startPointIndex + k].Distance(p);
+		if (MathUtils::IsGreaterThan(ek, maxError))
+		{
+			return false;
 		}
 	}
 	return true;
-- 
2.43.0


From 3c8647e928adb6a1cc772f12e95be49412d5ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 024/101] fix: SplitAt at a parameter equal to a knot within
 tolerance splits at that knot

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7ec0a24..075d021 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1631,6 +1631,15 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	// A parameter which coincides with a knot within tolerance splits exactly at this knot.
+	for (int i = 0; i < knotVector.size(); i++)
+	{
+		if (MathUtils::IsAlmostEqualTo(parameter, knotVector[i]))
+		{
+			parameter = knotVector[i];
+			break;
+		}
+	}
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
-- 
2.43.0


From 39441fda02b50c72ab47e8e6766e7e758a584e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 025/101] fix: GetParamsOnCurve ends when no further piece can
 be split off

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 075d021..7c2e9cb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4032,12 +4032,11 @@ std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& cur
 	double param = GetParamOnCurve(curve, givenLength, type);
 	while (!MathUtils::IsAlmostEqualTo(param, end))
 	{
-		result.emplace_back(param);
-
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
 		bool isSplited = SplitAt(curve, param, left, right);
-		if (!isSplited) continue;
+		if (!isSplited) break;
+		result.emplace_back(param);
 		param = GetParamOnCurve(right, givenLength, type);
 	}
 	return result;
-- 
2.43.0


From 36452a0adaacd03988b0df2ad0a27268a44bcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 026/101] fix: ApproximateLength of folding lines is not the
 chord

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7c2e9cb..3c4b04c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3703,7 +3703,21 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		std::vector<XYZW> controlPoints = curve.ControlPoints;
 		XYZ startPoint = controlPoints[0].ToXYZ(true);
 		XYZ endPoint = controlPoints[controlPoints.size() - 1].ToXYZ(true);
-		return startPoint.Distance(endPoint);
+		double chordLength = startPoint.Distance(endPoint);
+
+		double polygonLength = 0.0;
+		for (int i = 0; i + 1 < controlPoints.size(); i++)
+		{
+			polygonLength += controlPoints[i].ToXYZ(true).Distance(controlPoints[i + 1].ToXYZ(true));
+		}
+		if (MathUtils::IsAlmostEqualTo(polygonLength, chordLength))
+		{
+			return chordLength;
+		}
+		if (curve.Degree == 1)
+		{
+			return polygonLength;
+		}
 	}
 
 	if (curve.Degree == 1 && !isLinear)
-- 
2.43.0


From 526aed948ba44aef5e12660c1c10e6812f6ef75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 027/101] fix: ApproximateLength by Chebyshev integrates every
 span on its own

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3c4b04c..810be2b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3778,12 +3778,14 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		case IntegratorType::Chebyshev:
 		{
 			std::vector<double> series = Integrator::ChebyshevSeries();
-			for (int i = degree; i < controlPoints.size(); i++) 
+			std::vector<LN_NurbsCurve> bezierCurves = DecomposeToBeziers(reCurve);
+			for (int i = 0; i < bezierCurves.size(); i++)
 			{
-				double a = knotVector[i];
-				double b = knotVector[i + 1];
+				const LN_NurbsCurve& bezierCurve = bezierCurves[i];
+				double a = bezierCurve.KnotVector.front();
+				double b = bezierCurve.KnotVector.back();
 				FirstDerivativeLengthFunction function;
-				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&reCurve, a, b, series);
+				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&bezierCurve, a, b, series);
 			}
 			break;
 		}
-- 
2.43.0


From 99b7e9fc3489f805c4168c22d9b6fbdb53331546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:45 +0000
Subject: [PATCH 028/101] fix: GetParamOnCurve and GetAllParamsOnCurve stay in
 the domain and at the nearest point

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 30 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 810be2b..26d5e24 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1360,6 +1360,7 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 	}
 
+	bestT = std::max(minParam, std::min(maxParam, bestT));
 	double paramT = bestT;
 	int maxIterations = 20;
 
@@ -1398,13 +1399,22 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 		else {
 			double range = maxParam - minParam;
-			while (newT < minParam) newT += range;
-			while (newT > maxParam) newT -= range;
+			if (newT < minParam || newT > maxParam)
+			{
+				newT -= range * std::floor((newT - minParam) / range);
+			}
 		}
 
 		paramT = newT;
 	}
 
+	paramT = std::max(minParam, std::min(maxParam, paramT));
+	double distance = GetPointOnCurve(curve, paramT).Distance(givenPoint);
+	if (!(distance <= GetPointOnCurve(curve, bestT).Distance(givenPoint)))
+	{
+		// The iteration left the neighbourhood of the nearest point.
+		return bestT;
+	}
 	return paramT;
 }
 
@@ -1449,7 +1459,7 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 
 		if (isLocalMin)
 		{
-			initialGuesses.push_back(correspondingKnots[i]);
+			initialGuesses.push_back(std::max(minParam, std::min(maxParam, correspondingKnots[i])));
 		}
 	}
 
@@ -1495,13 +1505,23 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				if (newT < minParam || newT > maxParam)
+				{
+					newT -= range * std::floor((newT - minParam) / range);
+				}
 			}
 
 			paramT = newT;
 		}
 
+		paramT = std::max(minParam, std::min(maxParam, paramT));
+		double distance = GetPointOnCurve(curve, paramT).Distance(givenPoint);
+		if (!(distance <= GetPointOnCurve(curve, initialT).Distance(givenPoint)))
+		{
+			// The iteration left the neighbourhood of the local minimum.
+			paramT = initialT;
+		}
+
 		bool isDuplicate = false;
 		for (double existingT : result)
 		{
-- 
2.43.0


From 97f0a2d1d81752b80186878a6af684bd245b5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:45 +0000
Subject: [PATCH 029/101] fix: Tessellate follows point symmetric pieces and
 ends exactly at the knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 26d5e24..662032e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -107,6 +107,12 @@ namespace LNLib
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
 
+		// The middle alone misses point symmetric pieces.
+		XYZ q1 = NurbsCurve::GetPointOnCurve(curve, start + (end - start) * 0.25);
+		XYZ q3 = NurbsCurve::GetPointOnCurve(curve, start + (end - start) * 0.75);
+		deviation = std::max(deviation, q1.Distance(p0 * 0.75 + p2 * 0.25));
+		deviation = std::max(deviation, q3.Distance(p0 * 0.25 + p2 * 0.75));
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
 			parameters.emplace_back(mid);
 		}
@@ -4121,6 +4127,9 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::Tessellate(const LN_NurbsCurve& curve
 		if (MathUtils::IsGreaterThan(u1, parameters.back())) {
 			parameters.emplace_back(u1);
 		}
+		else {
+			parameters.back() = u1;
+		}
 	}
 
 	if (parameters.empty() || !MathUtils::IsAlmostEqualTo(parameters.back(), u_end)) {
-- 
2.43.0


From 9d8390a3190677effee257fbeb987510324eafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 030/101] fix: Tiller-Hanson offset keeps its side along the
 curve and the weights

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 662032e..e826a5e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -227,7 +227,7 @@ namespace LNLib
 			return;
 		}
 
-		XYZ firstNormal = NurbsCurve::Normal(curve, CurveNormal::Normal, knotVector[0]);
+		XYZ firstBinormal = NurbsCurve::Normal(curve, CurveNormal::Binormal, knotVector[0]);
 
 		std::vector<XYZ> tempPoints;
 		for (int i = 0; i < controlPoints.size() - 1; i++)
@@ -235,8 +235,8 @@ namespace LNLib
 			XYZ currentPoint0 = controlPoints[i].ToXYZ(true);
 			double param0 = NurbsCurve::GetParamOnCurve(curve, currentPoint0);
 			XYZ normal0 = NurbsCurve::Normal(curve, CurveNormal::Normal, param0);
-			double angle0 = firstNormal.AngleTo(normal0);
-			if (MathUtils::IsGreaterThan(angle0, Constants::Pi / 2.0, Constants::AngleEpsilon))
+			XYZ binormal0 = NurbsCurve::Normal(curve, CurveNormal::Binormal, param0);
+			if (firstBinormal.DotProduct(binormal0) < 0.0)
 			{
 				normal0 = normal0.Negative();
 			}
@@ -245,8 +245,8 @@ namespace LNLib
 			XYZ currentPoint1 = controlPoints[i + 1].ToXYZ(true);
 			double param1 = NurbsCurve::GetParamOnCurve(curve, currentPoint1);
 			XYZ normal1 = NurbsCurve::Normal(curve, CurveNormal::Normal, param1);
-			double angle1 = firstNormal.AngleTo(normal1);
-			if (MathUtils::IsGreaterThan(angle1, Constants::Pi / 2.0, Constants::AngleEpsilon))
+			XYZ binormal1 = NurbsCurve::Normal(curve, CurveNormal::Binormal, param1);
+			if (firstBinormal.DotProduct(binormal1) < 0.0)
 			{
 				normal1 = normal1.Negative();
 			}
@@ -258,7 +258,7 @@ namespace LNLib
 
 		std::vector<XYZW> newControlPoints;
 		newControlPoints.reserve(controlPoints.size());
-		newControlPoints.emplace_back(XYZW(tempPoints[0], 1));
+		newControlPoints.emplace_back(XYZW(tempPoints[0], controlPoints[0].GetW()));
 
 		for (int i = 0; i < tempPoints.size() - 2; i = i + 2)
 		{
@@ -275,10 +275,10 @@ namespace LNLib
 			{
 				return;
 			}
-			newControlPoints.emplace_back(XYZW(result, 1));
+			newControlPoints.emplace_back(XYZW(result, controlPoints[i / 2 + 1].GetW()));
 		}
 
-		newControlPoints.emplace_back(XYZW(tempPoints[tempPoints.size() - 1], 1));
+		newControlPoints.emplace_back(XYZW(tempPoints[tempPoints.size() - 1], controlPoints[controlPoints.size() - 1].GetW()));
 
 		result = curve;
 		result.ControlPoints = newControlPoints;
-- 
2.43.0


From bd33fba559318c95919df6145343263a0658e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 031/101] fix: ConstraintBasedModification meets the
 constraints of rational curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e826a5e..591b02f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3392,9 +3392,30 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	{
 		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, ur[Dr[i]]);
 		std::vector<std::vector<double>> ders = Polynomials::BasisFunctionsDerivatives(spanIndex, degree, Dk[i], knotVector, ur[Dr[i]]);
+
+		// Derivatives of the rational basis functions.
+		std::vector<double> wders(Dk[i] + 1, 0.0);
+		for (int k = 0; k <= Dk[i]; k++)
+		{
+			for (int j = 0; j <= degree; j++)
+			{
+				wders[k] += ders[k][j] * controlPoints[spanIndex - degree + j].GetW();
+			}
+		}
 		for (int j = 0; j <= degree; j++)
 		{
-			B[i][spanIndex - degree + j] = ders[Dk[i]][j];
+			double weight = controlPoints[spanIndex - degree + j].GetW();
+			std::vector<double> rders(Dk[i] + 1);
+			for (int k = 0; k <= Dk[i]; k++)
+			{
+				rders[k] = weight * ders[k][j];
+				for (int l = 1; l <= k; l++)
+				{
+					rders[k] -= MathUtils::Binomial(k, l) * wders[l] * rders[k - l];
+				}
+				rders[k] /= wders[0];
+			}
+			B[i][spanIndex - degree + j] = rders[Dk[i]];
 		}
 	}
 
-- 
2.43.0


From 03242bd4381feda260ae2cbdf5bb118e22b5fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 032/101] fix: NeighborWeightsModification refuses the last
 index

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 591b02f..213943c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3184,7 +3184,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
-- 
2.43.0


From 5d7eef0bdca315183dff4dd21ba01387c8f9cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 033/101] fix: ControlPointReposition and WeightModification
 use the basis function of the moved control point

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 32 ++++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 213943c..e4c094d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -215,6 +215,25 @@ namespace LNLib
 		return true;
 	}
 
+	// Value at paramT of the rational basis function which belongs to a control point.
+	double ComputeRationalBasisFunction(const LN_NurbsCurve& curve, int index, double paramT)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, paramT);
+		if (index < spanIndex - degree || index > spanIndex)
+		{
+			return 0.0;
+		}
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, paramT, basis);
+		double sum = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			sum += basis[i] * curve.ControlPoints[spanIndex - degree + i].GetW();
+		}
+		return basis[index - (spanIndex - degree)] * curve.ControlPoints[index].GetW() / sum;
+	}
+
 	void OffsetByTillerAndHanson(const LN_NurbsCurve& curve, double offset, LN_NurbsCurve& result)
 	{
 		int degree = curve.Degree;
@@ -3131,11 +3150,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = ComputeRationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsLessThanOrEqual(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3164,10 +3180,8 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = ComputeRationalBasisFunction(curve, moveIndex, parameter);
+	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(Rkp, 0.0), "moveIndex", "Control point must have influence at the parameter.");
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
-- 
2.43.0


From 3ffb2a6c42e18db2aaabceff44c2a27e9f60ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:11 +0000
Subject: [PATCH 034/101] fix: BezierSurface::Check compiles

---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0


From 09fb4acc86326844e0ddd7c74e68f9ba9a98f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 035/101] fix: surface derivatives of an order above the degree
 are zero, not an error

---
 src/LNLib/include/BsplineSurface.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..e4d0aed 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -105,14 +105,14 @@ namespace LNLib
 
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
+			int du = std::min(derivative, degreeU);
+			int dv = std::min(derivative, degreeV);
+
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
-			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 311d29b6a3baee4f4bcbd7330d06f8cfdff89f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 036/101] fix: surface derivative control points use the V
 knots

---
 src/LNLib/include/BsplineSurface.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index e4d0aed..c55b10e 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -239,12 +239,16 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
 				{
 					int dd = std::min(derivative - k, dv);
+					if (dd < 1)
+					{
+						continue;
+					}
 
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
@@ -254,7 +258,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From 9eca9d78c7dada781fd96a69cead0049aadb109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:47 +0000
Subject: [PATCH 037/101] fix: NurbsSurface::InsertKnot at a knot of more than
 full multiplicity

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 001feda..b014cb7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -567,7 +567,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From 9773a8d5a343e7edafd3bc4ee7c7c6197a25a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:47 +0000
Subject: [PATCH 038/101] fix: NurbsSurface::Reverse keeps the other knot
 vector and reverses both directions

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b014cb7..bdccb7d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -529,17 +531,19 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
 		}
-		result.ControlPoints = newControlPoints;
+		result.ControlPoints = controlPoints;
 	}
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From 3b11d1189c4ca55ea781cf1cd792d916e94c2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 039/101] fix: NurbsSurface::Reparametrize when one of the two
 domains is unchanged

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index bdccb7d..56280df 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1645,7 +1645,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 787adebfe0f39f60ca40c60c5a0bbfe3090555f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 040/101] fix: NurbsSurface::RemoveKnot removes the same number
 of knots from every curve of the net

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 68 +++++++++++----------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 56280df..9d5b845 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -976,52 +976,58 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 	}
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
-	std::vector<double> tempKnotVector;
-	std::vector<std::vector<XYZW>> tempControlPoints;
-
 	result = surface;
 
+	int degree = isUDirection ? degreeU : degreeV;
+	const std::vector<double>& knotVector = isUDirection ? knotVectorU : knotVectorV;
+	std::vector<std::vector<XYZW>> curves;
 	if (isUDirection)
 	{
-		std::vector<std::vector<XYZW>> transposedControlPoints;
-		MathUtils::Transpose(controlPoints, transposedControlPoints);
+		MathUtils::Transpose(controlPoints, curves);
+	}
+	else
+	{
+		curves = controlPoints;
+	}
 
-		for (int i = 0; i < transposedControlPoints.size(); i++)
+	// All curves of the net must lose the same number of knots.
+	for (int count = std::min(times, Polynomials::GetKnotMultiplicity(knotVector, removeKnot)); count > 0; count--)
+	{
+		std::vector<double> tempKnotVector;
+		std::vector<std::vector<XYZW>> tempControlPoints;
+		for (int i = 0; i < curves.size(); i++)
 		{
 			LN_NurbsCurve tc;
-			tc.Degree = degreeU;
-			tc.KnotVector = knotVectorU;
-			tc.ControlPoints = transposedControlPoints[i];
+			tc.Degree = degree;
+			tc.KnotVector = knotVector;
+			tc.ControlPoints = curves[i];
 
 			LN_NurbsCurve newtc;
-
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, count, newtc) || newtc.KnotVector.size() + count != knotVector.size())
+			{
+				break;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-		result.KnotVectorU = tempKnotVector;
-		result.KnotVectorV = knotVectorV;
-		std::vector<std::vector<XYZW>> updatedControlPoints;
-		MathUtils::Transpose(tempControlPoints, updatedControlPoints);
-		result.ControlPoints = updatedControlPoints;
-	}
-	else
-	{
-		for (int i = 0; i < controlPoints.size(); i++)
+		if (tempControlPoints.size() < curves.size())
 		{
-			LN_NurbsCurve tc;
-			tc.Degree = degreeV;
-			tc.KnotVector = knotVectorV;
-			tc.ControlPoints = controlPoints[i];
+			continue;
+		}
 
-			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
-			tempControlPoints.emplace_back(newtc.ControlPoints);
-			tempKnotVector = newtc.KnotVector;
+		if (isUDirection)
+		{
+			result.KnotVectorU = tempKnotVector;
+			std::vector<std::vector<XYZW>> updatedControlPoints;
+			MathUtils::Transpose(tempControlPoints, updatedControlPoints);
+			result.ControlPoints = updatedControlPoints;
 		}
-		result.KnotVectorU = knotVectorU;
-		result.KnotVectorV = tempKnotVector;
-		result.ControlPoints = tempControlPoints;
+		else
+		{
+			result.KnotVectorV = tempKnotVector;
+			result.ControlPoints = tempControlPoints;
+		}
+		return;
 	}
 }
 
-- 
2.43.0


From 5941e215c54c1e07945d932714e880779ce75e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 041/101] fix: CreateRevolvedSurface with an axis that is not a
 unit vector or points near the axis

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9d5b845..86f1e55 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1858,6 +1858,7 @@ void LNLib::NurbsSurface::CreateRuledSurface(const LN_NurbsCurve& curve0, const
 bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& axis, double rad, const LN_NurbsCurve& profile, LN_NurbsSurface& surface)
 {
 	VALIDATE_ARGUMENT(!axis.IsZero(), "axis", "Axis must not be zero vector.");
+	XYZ nAxis = const_cast<XYZ&>(axis).Normalize();
 	std::vector<double> knotVectorU;
 
 	int narcs = 0;
@@ -1925,11 +1926,11 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		XYZW gp = profile.ControlPoints[j];
 		XYZ p = gp.ToXYZ(true);
 
-		XYZ O = Projection::PointToRay(origin, axis, p);
+		XYZ O = Projection::PointToRay(origin, nAxis, p);
 		X = p - O;
 
-		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		r = X.Length();
+		Y = nAxis.CrossProduct(X);
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
@@ -1956,15 +1957,8 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 			}
 			else
 			{
-				XYZ intersectPoint;
-				double param0;
-				double param1;
-				CurveCurveIntersectionType type = Intersection::ComputeRays(P0, T0, P2, T2, param0, param1, intersectPoint);
-				if (type != CurveCurveIntersectionType::Intersecting)
-				{
-					return false;
-				}
-				controlPoints[index + 1][j] = XYZW(intersectPoint, wm * gp[3]);
+				// The tangents at P0 and P2 intersect at distance r * tan(dtheta / 2) from both.
+				controlPoints[index + 1][j] = XYZW(P0 + r * tan(dtheta / 2.0) * T0, wm * gp[3]);
 			}
 
 			index += 2;
-- 
2.43.0


From 357bee08da1e2aa8b604b3d985dbb8593bf61a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 042/101] fix: NonUniformScaling keeps weighted control points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 86f1e55..7345333 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1996,7 +1996,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2018,7 +2018,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From cc22fe3fc168c3d189cdfe416dd2d8d28ecb6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 043/101] fix: volume derivatives combine the V direction

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..265ac7f 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From 1781c74d25ac81c333549f7ff011fb5b13814599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 044/101] fix: volume derivatives of an order above the degree
 are zero, not an error

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 265ac7f..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
-- 
2.43.0


From 357f0dd4b7a1134579d6b8947aafd1d40053ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 045/101] fix: GetParamOnVolume stays in the domain and at the
 nearest point

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..c394007 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -17,6 +17,8 @@
 #include "NurbsCurve.h"
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 LNLib::LN_NurbsCurve LNLib::NurbsVolume::GetIsoCurve(const LN_NurbsVolume& volume, UVW uvw)
 {
@@ -1286,9 +1288,9 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		{
 			for (int k = 0; k < num; ++k)
 			{
-				double currentU = minU + i * stepU;
-				double currentV = minV + j * stepV;
-				double currentW = minW + k * stepW;
+				double currentU = std::min(maxU, minU + i * stepU);
+				double currentV = std::min(maxV, minV + j * stepV);
+				double currentW = std::min(maxW, minW + k * stepW);
 
 				UVW current(currentU, currentV, currentW);
 				LNLib::XYZ point = GetPointOnVolume(volume, current);
@@ -1378,8 +1380,7 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedU) {
 			double range = maxU - minU;
-			while (newU < minU) newU += range;
-			while (newU > maxU) newU -= range;
+			if (newU < minU || newU > maxU) newU -= range * std::floor((newU - minU) / range);
 		}
 		else {
 			newU = std::max(minU, std::min(maxU, newU));
@@ -1387,8 +1388,7 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedV) {
 			double range = maxV - minV;
-			while (newV < minV) newV += range;
-			while (newV > maxV) newV -= range;
+			if (newV < minV || newV > maxV) newV -= range * std::floor((newV - minV) / range);
 		}
 		else {
 			newV = std::max(minV, std::min(maxV, newV));
@@ -1396,8 +1396,7 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedW) {
 			double range = maxW - minW;
-			while (newW < minW) newW += range;
-			while (newW > maxW) newW -= range;
+			if (newW < minW || newW > maxW) newW -= range * std::floor((newW - minW) / range);
 		}
 		else {
 			newW = std::max(minW, std::min(maxW, newW));
@@ -1406,6 +1405,15 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		param = UVW(newU, newV, newW);
 	}
 
+	param = UVW(std::max(minU, std::min(maxU, param.GetU())),
+				std::max(minV, std::min(maxV, param.GetV())),
+				std::max(minW, std::min(maxW, param.GetW())));
+	double sqrDistance = (GetPointOnVolume(volume, param) - givenPoint).SqrLength();
+	if (!(sqrDistance <= minDistSq))
+	{
+		// The iteration left the neighbourhood of the nearest point.
+		return bestParam;
+	}
 	return param;
 }
 
-- 
2.43.0


From a7116dde2fbb946f4aecba407b44962afe8a303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:03 +0000
Subject: [PATCH 046/101] fix: GetParamOnVolume takes descending steps and does
 not depend on the scale

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index c394007..2fc1343 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1347,11 +1347,23 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		double K1 = Vv.DotProduct(diff);
 		double K2 = Vw.DotProduct(diff);
 
+		// The second order terms help only while the matrix stays positive definite.
+		if (J00 <= 0.0 || J00 * J11 - J01 * J10 <= 0.0 ||
+			J00 * (J11 * J22 - J12 * J21) - J01 * (J10 * J22 - J12 * J20) + J02 * (J10 * J21 - J11 * J20) <= 0.0)
+		{
+			J00 = Vu.DotProduct(Vu);
+			J01 = J10 = Vu.DotProduct(Vv);
+			J02 = J20 = Vu.DotProduct(Vw);
+			J11 = Vv.DotProduct(Vv);
+			J12 = J21 = Vv.DotProduct(Vw);
+			J22 = Vw.DotProduct(Vw);
+		}
+
 		double det = J00 * (J11 * J22 - J12 * J21)
 			- J01 * (J10 * J22 - J12 * J20)
 			+ J02 * (J10 * J21 - J11 * J20);
 
-		if (MathUtils::IsAlmostEqualTo(std::abs(det), 0.0)) {
+		if (std::abs(det) <= 1e-12 * std::abs(J00 * J11 * J22)) {
 			break;
 		}
 
@@ -1402,7 +1414,13 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 			newW = std::max(minW, std::min(maxW, newW));
 		}
 
-		param = UVW(newU, newV, newW);
+		// Shorten the step until the distance decreases.
+		UVW next(newU, newV, newW);
+		for (int halving = 0; halving < 10 && GetPointOnVolume(volume, next).Distance(givenPoint) > currentDist; ++halving)
+		{
+			next = UVW((param.GetU() + next.GetU()) / 2, (param.GetV() + next.GetV()) / 2, (param.GetW() + next.GetW()) / 2);
+		}
+		param = next;
 	}
 
 	param = UVW(std::max(minU, std::min(maxU, param.GetU())),
-- 
2.43.0


From 7699f83c32bc532670b9e0233dfd32f07585142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 047/101] fix: NurbsVolume::InsertKnot sizes the net by the
 knots really inserted

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 2fc1343..f196ee5 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -406,6 +406,8 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		// The knot may have been inserted fewer times than requested.
+		newControlPoints.resize(newKvU.size() - degreeU - 1);
 		result.KnotVectorU = newKvU;
 		result.ControlPoints = newControlPoints;
 	}
@@ -443,6 +445,11 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		// The knot may have been inserted fewer times than requested.
+		for (auto& row : newControlPoints)
+		{
+			row.resize(newKvV.size() - degreeV - 1);
+		}
 		result.KnotVectorV = newKvV;
 		result.ControlPoints = newControlPoints;
 	}
@@ -480,6 +487,14 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		// The knot may have been inserted fewer times than requested.
+		for (auto& row : newControlPoints)
+		{
+			for (auto& column : row)
+			{
+				column.resize(newKvW.size() - degreeW - 1);
+			}
+		}
 		result.KnotVectorW = newKvW;
 		result.ControlPoints = newControlPoints;
 	}
-- 
2.43.0


From 5ea33682456786da514fec44178a8814ebceecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 048/101] fix: NurbsVolume::RefineKnotVector writes past the
 end of the net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index f196ee5..7770c3c 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -882,7 +882,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From db2a74e8d6aa4c15c326c0ed90cd16ad61753d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 049/101] fix: NurbsVolume::ElevateDegree with multiple
 interior knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 7770c3c..5f57f67 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1035,7 +1035,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeU + 1;
 		int endIdx = static_cast<int>(kvU.size()) - (degreeU + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (!MathUtils::IsAlmostEqualTo(kvU[i], kvU[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int nh = n + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(nh + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1085,7 +1092,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeV + 1;
 		int endIdx = static_cast<int>(kvV.size()) - (degreeV + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (!MathUtils::IsAlmostEqualTo(kvV[i], kvV[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int mh = m + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(mh + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1135,7 +1149,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeW + 1;
 		int endIdx = static_cast<int>(kvW.size()) - (degreeW + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (!MathUtils::IsAlmostEqualTo(kvW[i], kvW[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int lh = l + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(lh + 1)));
-- 
2.43.0


From 9eb0e24129ed30e9772551c674f5c46e8229b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 050/101] fix: NurbsVolume::Reverse in V and W writes into an
 empty net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 5f57f67..99f3856 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1487,7 +1487,7 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
+	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
@@ -1498,8 +1498,6 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvS = kvV;
 		std::vector<double> kvT = kvW;
 
-		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-
 		std::vector<double> kvR;
 
 		for (int sep = 0; sep <= l; sep++)
-- 
2.43.0


From 97689e33588d8b4948688fb31dfc960b854a2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 051/101] fix: NurbsVolume::Extract returns the surface, with
 degrees and knots of its net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 37 +++++++++++++----------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 99f3856..18366d5 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -687,7 +687,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -708,6 +708,11 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 
 	if (direction == VolumeDirection::U)
 	{
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvU[0]))
 		{
 			Pwc = controlPoints[0];
@@ -735,15 +740,15 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
 	}
 	else if (direction == VolumeDirection::V)
 	{
+		newDegreeU = degreeU;
+		newDegreeV = degreeW;
+		newKvU = kvU;
+		newKvV = kvW;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvV[0]))
 		{
 			Pwc.resize(controlPoints.size());
@@ -789,15 +794,15 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				}
 			}
 			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
 	}
 	else if (direction == VolumeDirection::W)
 	{
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvW[0]))
 		{
 			Pwc.resize(controlPoints.size());
@@ -843,14 +848,14 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
 	}
 
+	else
+	{
+		return false;
+	}
+
 	surface.DegreeU = newDegreeU;
 	surface.DegreeV = newDegreeV;
 	surface.KnotVectorU = newKvU;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From 463ee602dac8556a47b3230b49a00cb4cf1549ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 052/101] fix: NurbsVolume::Swap takes the two directions in
 either order

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 18366d5..b56c6a8 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1634,7 +1634,7 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int v = controlPoints[0].size();
 	int w = controlPoints[0][0].size();
 
-	if (direction == VolumeDirection::U && swap == VolumeDirection::V)
+	if ((direction == VolumeDirection::U && swap == VolumeDirection::V) || (direction == VolumeDirection::V && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeV;
 		result.DegreeV = degreeU;
@@ -1660,7 +1660,7 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::U && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::U && swap == VolumeDirection::W) || (direction == VolumeDirection::W && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeW;
 		result.DegreeV = degreeV;
@@ -1684,7 +1684,7 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::V && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::V && swap == VolumeDirection::W) || (direction == VolumeDirection::W && swap == VolumeDirection::V))
 	{
 		result.DegreeU = degreeU;
 		result.DegreeV = degreeW;
-- 
2.43.0


From cf584ce70527e5f7c3ffcf819a3095202b0c6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:37 +0000
Subject: [PATCH 053/101] fix: GetParamOnSurface and GetAllParamsOnSurface stay
 in the domain and find the nearest point

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 302 ++++++++++----------
 1 file changed, 151 insertions(+), 151 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 7345333..523d569 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1273,6 +1273,125 @@ bool LNLib::NurbsSurface::IsClosed(const LN_NurbsSurface& surface, bool isUDirec
 	}
 }
 
+namespace
+{
+	// Newton iteration for the parameter of the nearest point, started at the guess.
+	// It stays in the domain and never increases the distance.
+	LNLib::UV RefineParamOnSurface(const LNLib::LN_NurbsSurface& surface, const LNLib::XYZ& givenPoint, const LNLib::UV& guess, bool isClosedU, bool isClosedV)
+	{
+		double minU = surface.KnotVectorU[0];
+		double maxU = surface.KnotVectorU[surface.KnotVectorU.size() - 1];
+		double minV = surface.KnotVectorV[0];
+		double maxV = surface.KnotVectorV[surface.KnotVectorV.size() - 1];
+
+		auto toDomain = [](double value, double min, double max, bool isClosed)
+		{
+			if (isClosed && (value < min || value > max))
+			{
+				value -= (max - min) * std::floor((value - min) / (max - min));
+			}
+			return std::max(min, std::min(max, value));
+		};
+
+		LNLib::UV param(toDomain(guess.GetU(), minU, maxU, isClosedU), toDomain(guess.GetV(), minV, maxV, isClosedV));
+		int maxIterations = 20;
+
+		for (int iter = 0; iter < maxIterations; ++iter)
+		{
+			std::vector<std::vector<LNLib::XYZ>> derivatives = LNLib::NurbsSurface::ComputeRationalSurfaceDerivatives(surface, 2, param);
+
+			LNLib::XYZ S = derivatives[0][0];
+			LNLib::XYZ Su = derivatives[1][0];
+			LNLib::XYZ Sv = derivatives[0][1];
+			LNLib::XYZ Suu = derivatives[2][0];
+			LNLib::XYZ Svv = derivatives[0][2];
+			LNLib::XYZ Suv = derivatives[1][1];
+
+			LNLib::XYZ diff = S - givenPoint;
+			double currentDist = diff.Length();
+
+			if (LNLib::MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
+				break;
+			}
+
+			double K0 = Su.DotProduct(diff);
+			double K1 = Sv.DotProduct(diff);
+
+			// A parameter at its bound does not move any further outwards.
+			bool isFixedU = !isClosedU && ((param.GetU() <= minU && K0 > 0.0) || (param.GetU() >= maxU && K0 < 0.0));
+			bool isFixedV = !isClosedV && ((param.GetV() <= minV && K1 > 0.0) || (param.GetV() >= maxV && K1 < 0.0));
+			if (isFixedU && isFixedV) {
+				break;
+			}
+
+			double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
+			double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
+			double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
+
+			// The second order terms help only while the matrix stays positive definite.
+			bool isPositive = isFixedU ? J11 > 0.0 : isFixedV ? J00 > 0.0 : (J00 > 0.0 && J00 * J11 - J01 * J01 > 0.0);
+			if (!isPositive)
+			{
+				J00 = Su.DotProduct(Su);
+				J01 = Su.DotProduct(Sv);
+				J11 = Sv.DotProduct(Sv);
+			}
+
+			double deltaU = 0.0;
+			double deltaV = 0.0;
+			if (isFixedU)
+			{
+				deltaV = -K1 / J11;
+			}
+			else if (isFixedV)
+			{
+				deltaU = -K0 / J00;
+			}
+			else
+			{
+				double determinant = J00 * J11 - J01 * J01;
+				if (determinant > 1e-12 * J00 * J11)
+				{
+					deltaU = (J01 * K1 - J11 * K0) / determinant;
+					deltaV = (J01 * K0 - J00 * K1) / determinant;
+				}
+				else if (Su.SqrLength() > Sv.SqrLength())
+				{
+					deltaU = -K0 / Su.SqrLength();
+				}
+				else
+				{
+					deltaV = -K1 / Sv.SqrLength();
+				}
+			}
+			if (!std::isfinite(deltaU) || !std::isfinite(deltaV)) {
+				break;
+			}
+
+			// Shorten the step until the distance decreases.
+			double factor = 1.0;
+			LNLib::UV next = param;
+			bool isCloser = false;
+			for (int halving = 0; halving < 12 && !isCloser; ++halving)
+			{
+				next = LNLib::UV(toDomain(param.GetU() + factor * deltaU, minU, maxU, isClosedU), toDomain(param.GetV() + factor * deltaV, minV, maxV, isClosedV));
+				isCloser = LNLib::NurbsSurface::GetPointOnSurface(surface, next).Distance(givenPoint) <= currentDist;
+				factor *= 0.5;
+			}
+			if (!isCloser) {
+				break;
+			}
+			param = next;
+
+			LNLib::XYZ deltaWorld = Su * deltaU + Sv * deltaV;
+			if (LNLib::MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+				break;
+			}
+		}
+		return param;
+	}
+}
+
 LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
 {
 	int degreeU = surface.DegreeU;
@@ -1282,9 +1401,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
 	double minU = knotVectorU[0];
-	double maxU = knotVectorU[knotVectorU.size() - 1];
 	double minV = knotVectorV[0];
-	double maxV = knotVectorV[knotVectorV.size() - 1];
 
 	bool isClosedU = IsClosed(surface, true);
 	bool isClosedV = IsClosed(surface, false);
@@ -1294,7 +1411,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 	EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
 
 	double minDistanceSquared = std::numeric_limits<double>::max();
-	UV bestParam(Constants::DoubleEpsilon, Constants::DoubleEpsilon);
+	UV bestParam(minU, minV);
 
 	for (int i = 0; i < tessellatedPoints.size() - 1; ++i)
 	{
@@ -1303,6 +1420,18 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		const UV& UV0 = correspondingKnots[i];
 		const UV& UV1 = correspondingKnots[i + 1];
 
+		// The end of a row and the start of the next one are not neighbours.
+		if (UV0.GetU() != UV1.GetU())
+		{
+			double endSq = (givenPoint - P0).SqrLength();
+			if (endSq < minDistanceSquared)
+			{
+				minDistanceSquared = endSq;
+				bestParam = UV0;
+			}
+			continue;
+		}
+
 		XYZ seg = P1 - P0;
 		double segLenSq = seg.DotProduct(seg);
 		double t = 0.5;
@@ -1324,77 +1453,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		}
 	}
 
-	UV param = bestParam;
-	int maxIterations = 20;
-
-	for (int iter = 0; iter < maxIterations; ++iter)
-	{
-		
-		std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-		XYZ S = derivatives[0][0]; 
-		XYZ Su = derivatives[1][0];
-		XYZ Sv = derivatives[0][1];
-		XYZ Suu = derivatives[2][0];
-		XYZ Svv = derivatives[0][2];
-		XYZ Suv = derivatives[1][1];
-
-		XYZ diff = S - givenPoint;
-		double currentDist = diff.Length();
-
-		if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-			return param;
-		}
-
-		
-		double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-		double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-		double J10 = J01;
-		double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-		double K0 = Su.DotProduct(diff);
-		double K1 = Sv.DotProduct(diff);
-
-		double determinant = J00 * J11 - J01 * J10;
-
-		if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-			break;
-		}
-
-		double deltaU = (J10 * K1 - J11 * K0) / determinant;
-		double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-		double newU = param.GetU() + deltaU;
-		double newV = param.GetV() + deltaV;
-
-		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-			param = UV(newU, newV);
-			break;
-		}
-
-		if (isClosedU) {
-			double rangeU = maxU - minU;
-			while (newU < minU) newU += rangeU;
-			while (newU > maxU) newU -= rangeU;
-		}
-		if (isClosedV) {
-			double rangeV = maxV - minV;
-			while (newV < minV) newV += rangeV;
-			while (newV > maxV) newV -= rangeV;
-		}
-
-		if (!isClosedU) {
-			newU = std::max(minU, std::min(maxU, newU));
-		}
-		if (!isClosedV) {
-			newV = std::max(minV, std::min(maxV, newV));
-		}
-
-		param = UV(newU, newV);
-	}
-
-	return param;
+	return RefineParamOnSurface(surface, givenPoint, bestParam, isClosedU, isClosedV);
 }
 
 std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
@@ -1437,20 +1496,27 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 	std::vector<UV> initialGuesses;
 
-	for (int i = 1; i < numU - 1; ++i)
+	for (int i = 0; i < numU; ++i)
 	{
-		for (int j = 1; j < numV - 1; ++j)
+		for (int j = 0; j < numV; ++j)
 		{
 			int idx = i * numV + j;
-			int idxUp = (i - 1) * numV + j;
-			int idxDown = (i + 1) * numV + j;
-			int idxLeft = i * numV + (j - 1);
-			int idxRight = i * numV + (j + 1);
+			double current = distSq[idx];
+
+			// Of equal neighbours only the last one counts, and flat regions have no minimum.
+			bool isLocalMin = true;
+			bool isFlat = true;
+			auto compare = [&](int neighbor, bool isNext)
+			{
+				isLocalMin = isLocalMin && (isNext ? current < distSq[neighbor] : current <= distSq[neighbor]);
+				isFlat = isFlat && !MathUtils::IsLessThan(current, distSq[neighbor]);
+			};
+			if (i > 0) compare(idx - numV, false);
+			if (i < numU - 1) compare(idx + numV, true);
+			if (j > 0) compare(idx - 1, false);
+			if (j < numV - 1) compare(idx + 1, true);
 
-			if (MathUtils::IsLessThan(distSq[idx],distSq[idxUp]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxDown]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxLeft]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxRight]))
+			if (isLocalMin && !isFlat)
 			{
 				initialGuesses.push_back(correspondingKnots[idx]);
 			}
@@ -1462,76 +1528,10 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 	}
 
 	std::vector<UV> result;
-	int maxIterations = 20;
 
 	for (const UV& guess : initialGuesses)
 	{
-		UV param = guess;
-
-		for (int iter = 0; iter < maxIterations; ++iter)
-		{
-			std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-			XYZ S = derivatives[0][0];
-			XYZ Su = derivatives[1][0];
-			XYZ Sv = derivatives[0][1];
-			XYZ Suu = derivatives[2][0];
-			XYZ Svv = derivatives[0][2];
-			XYZ Suv = derivatives[1][1];
-
-			XYZ diff = S - givenPoint;
-			double currentDist = diff.Length();
-
-			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-				break;
-			}
-
-			double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-			double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-			double J10 = J01;
-			double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-			double K0 = Su.DotProduct(diff);
-			double K1 = Sv.DotProduct(diff);
-
-			double determinant = J00 * J11 - J01 * J10;
-
-			if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-				break;
-			}
-
-			double deltaU = (J10 * K1 - J11 * K0) / determinant;
-			double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-			double newU = param.GetU() + deltaU;
-			double newV = param.GetV() + deltaV;
-
-			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-				param = UV(newU, newV);
-				break;
-			}
-
-			if (isClosedU) {
-				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
-			}
-			else {
-				newU = std::max(minU, std::min(maxU, newU));
-			}
-
-			if (isClosedV) {
-				double rangeV = maxV - minV;
-				while (newV < minV) newV += rangeV;
-				while (newV > maxV) newV -= rangeV;
-			}
-			else {
-				newV = std::max(minV, std::min(maxV, newV));
-			}
-
-			param = UV(newU, newV);
-		}
+		UV param = RefineParamOnSurface(surface, givenPoint, guess, isClosedU, isClosedV);
 
 		bool isDuplicate = false;
 		for (const UV& existingUV : result)
-- 
2.43.0


From 5ee4e4e363f6128ace33b92d97efff045795c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:37 +0000
Subject: [PATCH 054/101] fix: GetUVTangent does not depend on the scale of the
 derivatives

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 523d569..6befd9a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1687,7 +1687,7 @@ bool LNLib::NurbsSurface::GetUVTangent(const LN_NurbsSurface& surface, const UV
 	double e = Su.DotProduct(tangent);
 	double f = Sv.DotProduct(tangent);
 
-	if (MathUtils::IsAlmostEqualTo(a * d, b * c))
+	if (a * d - b * c <= Constants::DoubleEpsilon * a * d)
 	{
 		return false;
 	}
-- 
2.43.0


From 6faa361bcb43a75e3dbe9569a55cf12fdd46dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:54 +0000
Subject: [PATCH 055/101] fix: GetParamOnSurfaceByGSA starts in the domain,
 stays there, and handles flat directions

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6befd9a..014b3db 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1569,8 +1569,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 	double minV = knotVectorV[0];
 	double maxV = knotVectorV[knotVectorV.size() - 1];
 
-	double u0 = (maxU - minU) * 0.5;
-	double v0 = (maxV - minV) * 0.5;
+	double u0 = (minU + maxU) * 0.5;
+	double v0 = (minV + maxV) * 0.5;
 
 	int counter = 0;
 
@@ -1612,10 +1612,15 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / std::abs(curvature);
 
-		XYZ m = p0 + radius * normal;
-		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
+		XYZ q = givenPoint;
+		// Without curvature, or on the surface, the tangent plane takes the place of the osculating circle.
+		if (std::isfinite(curvature) && MathUtils::IsGreaterThan(std::abs(curvature), 0.0))
+		{
+			double radius = 1 / std::abs(curvature);
+			XYZ m = p0 + radius * normal;
+			q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
+		}
 
 		double c4 = (q - p0).DotProduct(Su);
 		double c5 = (q - p0).DotProduct(Sv);
@@ -1623,8 +1628,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double deltaU = (c4 * G - c5 * F) / denominator;
 		double deltaV = -(c4 * F - c5 * E) / denominator;
 
-		double ut = u0 + deltaU;
-		double vt = v0 + deltaV;
+		double ut = std::max(minU, std::min(maxU, u0 + deltaU));
+		double vt = std::max(minV, std::min(maxV, v0 + deltaV));
 
 		u0 = ut;
 		v0 = vt;
-- 
2.43.0


From 747a488ca0bcda943e550230b2838513c543251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:38 +0000
Subject: [PATCH 056/101] fix: surface EquallyTessellate includes the last u
 and v lines

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 014b3db..b9e6556 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1192,6 +1192,7 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedU.emplace_back(u);
 		}
 	}
+	tessellatedU.emplace_back(uniqueKvU[sizeU - 1]);
 	std::vector<double> tessellatedV;
 	for (int i = 0; i < sizeV - 1; i++)
 	{
@@ -1204,6 +1205,7 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedV.emplace_back(v);
 		}
 	}
+	tessellatedV.emplace_back(uniqueKvV[sizeV - 1]);
 
 	for (int i = 0; i < tessellatedU.size(); i++)
 	{
@@ -1214,9 +1216,6 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedPoints.emplace_back(GetPointOnSurface(surface, uv));
 		}
 	}
-
-	correspondingKnots.emplace_back(UV(knotVectorU[knotVectorU.size() - 1], knotVectorV[knotVectorV.size() - 1]));
-	tessellatedPoints.emplace_back(const_cast<XYZW&>(controlPoints[controlPoints.size() - 1][controlPoints[0].size() - 1]).ToXYZ(true));
 }
 
 bool LNLib::NurbsSurface::IsClosed(const LN_NurbsSurface& surface, bool isUDirection)
@@ -1485,8 +1484,8 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 	int sizeV = uniqueKvV.size();
 
 	int intervals = 100;
-	int numU = (sizeU - 1) * intervals; 
-	int numV = (sizeV - 1) * intervals; 
+	int numU = (sizeU - 1) * intervals + 1;
+	int numV = (sizeV - 1) * intervals + 1;
 
 	std::vector<double> distSq(tessellatedPoints.size());
 	for (size_t i = 0; i < tessellatedPoints.size(); ++i)
-- 
2.43.0


From ffbbb57163e2a3a4f8e1c57657b7b2d8dacfa554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:24 +0000
Subject: [PATCH 057/101] fix: VoronoiDiagramGenerator keeps its nodes aligned

---
 src/LNLib/include/Voronoi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/include/Voronoi.h b/src/LNLib/include/Voronoi.h
index c26131e..a5442c4 100644
--- a/src/LNLib/include/Voronoi.h
+++ b/src/LNLib/include/Voronoi.h
@@ -81,8 +81,8 @@ namespace LNLib
 		int count;
 	};
 
-	// structure used both for sites and for vertices 
-	struct Site
+	// structure used both for sites and for vertices, and kept in a free list when unused
+	struct alignas(Freenode) Site
 	{
 		struct	PointVDG	coord;
 		int		sitenbr;
-- 
2.43.0


From 335966ada493f4ce2b01c1ce5c07fa1dc19e1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:24 +0000
Subject: [PATCH 058/101] fix: NurbsSurface::GetBoundingBox evaluates every
 pair of knots

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b9e6556..4cdc17f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -354,7 +354,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From a62f8c45fedb3fe478588ccbcb2c796452a397ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:24 +0000
Subject: [PATCH 059/101] fix: NurbsSurface::Triangulate covers the domain of
 the knot vectors

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4cdc17f..053733a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3901,12 +3901,17 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double minU = surface.KnotVectorU[0];
+		double maxU = surface.KnotVectorU[surface.KnotVectorU.size() - 1];
+		double minV = surface.KnotVectorV[0];
+		double maxV = surface.KnotVectorV[surface.KnotVectorV.size() - 1];
+
 		for (int i = 0; i < resolutionU; ++i)
 		{
-			double u = (double)i / (resolutionU - 1);
+			double u = minU + (maxU - minU) * i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
-				double v = (double)j / (resolutionV - 1);
+				double v = minV + (maxV - minV) * j / (resolutionV - 1);
 				points[i][j] = GetPointOnSurface(surface, UV(u, v));
 				uvs[i][j] = { u, v };
 			}
-- 
2.43.0


From 6c426dfa2cb2647df1753b62a2564a964ef77656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 060/101] fix: Delaunay triangulation reaches the last u and v
 lines and handles closed surfaces

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 49 +++++++++++++++------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 053733a..f45ff63 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3751,7 +3751,7 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		iterMin = min_element(area.begin(), area.end());
 		double minArea = *min_element(iterMin->begin(), iterMin->end());
 		double areaRange = maxArea - minArea;
-		if (MathUtils::IsAlmostEqualTo(curvatureRange, 0.0))
+		if (MathUtils::IsAlmostEqualTo(areaRange, 0.0))
 		{
 			area = std::vector<std::vector<double>>(samplesU - 1, std::vector<double>(samplesV - 1, 0.0));
 		}
@@ -3833,7 +3833,16 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 					newV.emplace_back(disV(gen));
 				}
 			}
+			newU.emplace_back(currentU);
+			newV.emplace_back(vmax);
+		}
+		for (int j = 0; j < samplesV - 1; j++)
+		{
+			newU.emplace_back(umax);
+			newV.emplace_back(vs[j]);
 		}
+		newU.emplace_back(umax);
+		newV.emplace_back(vmax);
 
 #pragma region Delaunay Triangulation
 		std::vector<double> usList;
@@ -3846,15 +3855,27 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		row = surfacePoints.size();
 		column = surfacePoints[0].size();
 
-		double uLength0 = surfacePoints[0][0].Distance(surfacePoints[row - 1][0]);
-		double uLength1 = surfacePoints[0][column / 2].Distance(surfacePoints[row - 1][column / 2]);
-		double uLength2 = surfacePoints[0][column - 1].Distance(surfacePoints[row - 1][column - 1]);
-		double uLength = std::max({ uLength0, uLength1, uLength2 });
-
-		double vLength0 = surfacePoints[0][0].Distance(surfacePoints[0][column - 1]);
-		double vLength1 = surfacePoints[row / 2][0].Distance(surfacePoints[row / 2][column - 1]);
-		double vLength2 = surfacePoints[row - 1][column - 1].Distance(surfacePoints[row - 1][column - 1]);
-		double vLength = std::max({ vLength0, vLength1, vLength2 });
+		// The first and last lines of a closed surface coincide: measure along the surface.
+		auto lengthU = [&](int j)
+		{
+			double length = 0.0;
+			for (int i = 1; i < row; i++)
+			{
+				length += surfacePoints[i - 1][j].Distance(surfacePoints[i][j]);
+			}
+			return length;
+		};
+		auto lengthV = [&](int i)
+		{
+			double length = 0.0;
+			for (int j = 1; j < column; j++)
+			{
+				length += surfacePoints[i][j - 1].Distance(surfacePoints[i][j]);
+			}
+			return length;
+		};
+		double uLength = std::max({ lengthU(0), lengthU(column / 2), lengthU(column - 1) });
+		double vLength = std::max({ lengthV(0), lengthV(row / 2), lengthV(row - 1) });
 
 		double uCoeff = uLength / (umax - umin);
 		double vCoeff = vLength / (vmax - vmin);
@@ -3868,10 +3889,10 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 			vValues[i] = vsList[i] * vCoeff;
 		}
 
-		float uMin = usList[0] * uCoeff;
-		float uMax = usList[usList.size() - 1] * uCoeff;
-		float vMin = vsList[0] * vCoeff;
-		float vMax = vsList[vsList.size() - 1] * vCoeff;
+		float uMin = umin * uCoeff;
+		float uMax = umax * uCoeff;
+		float vMin = vmin * vCoeff;
+		float vMax = vmax * vCoeff;
 
 		VoronoiDiagramGenerator vdg;
 		vdg.setGenerateVoronoi(true);
-- 
2.43.0


From 35947387ce9e559c1882c023d40487beefa25739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:28 +0000
Subject: [PATCH 061/101] fix: generateVoronoi returns the triangles of the
 last diagram only

---
 src/LNLib/Algorithm/Voronoi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..7b67d4c 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -116,6 +116,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From 1e83b4c5bcc7e7cc460c02f285c19785e5d2b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 062/101] fix: octree searches compare exactly, so that small
 radii and clouds are not missed

---
 src/LNLib/Algorithm/Octree/Octree.cpp         | 42 +++++++++----------
 .../Algorithm/Octree/OctreeCollector.cpp      |  6 +--
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..e153bfd 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -34,7 +34,7 @@ bool LNLib::Inside(const LNLib::XYZ& query, double radius, LNLib::Octant* octant
     double ax = std::fabs(queryOffset.X());
     double ay = std::fabs(queryOffset.Y());
     double az = std::fabs(queryOffset.Z());
-    return (MathUtils::IsLessThan(ax + radius,octant->Extent)) && (MathUtils::IsLessThan(ay + radius,octant->Extent)) && (MathUtils::IsLessThan(az + radius,octant->Extent));
+    return (ax + radius < octant->Extent) && (ay + radius < octant->Extent) && (az + radius < octant->Extent);
 }
 
 bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
@@ -44,12 +44,12 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double az = std::fabs(queryOffset.Z());
 
     double maxDist = radius + octant->Extent;
-    if (MathUtils::IsGreaterThan(ax,maxDist) || MathUtils::IsGreaterThan(ay,maxDist) || MathUtils::IsGreaterThan(az,maxDist)) return false;
+    if (ax > maxDist || ay > maxDist || az > maxDist) return false;
 
     int count = 0;
-    if (MathUtils::IsLessThan(ax,octant->Extent)) count++;
-    if (MathUtils::IsLessThan(ay,octant->Extent)) count++;
-    if (MathUtils::IsLessThan(az,octant->Extent)) count++;
+    if (ax < octant->Extent) count++;
+    if (ay < octant->Extent) count++;
+    if (az < octant->Extent) count++;
     if (count >= 2) return true;
 
     double xDiff = std::max(ax - octant->Extent, 0.0);
@@ -57,7 +57,7 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double zDiff = std::max(az - octant->Extent, 0.0);
 
     LNLib::XYZ diff(xDiff, yDiff, zDiff);
-    return  MathUtils::IsLessThan(diff.SqrLength(),(radius * radius));
+    return diff.SqrLength() <= radius * radius;
 }
 
 bool LNLib::Contains(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
@@ -89,9 +89,9 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
         for (int pointIdx : pointIndices) {
             const LNLib::XYZ& pointDb = db[pointIdx];
             int mortonCode = 0;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.X(),center.X())) mortonCode |= 1;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Y(),center.Y())) mortonCode |= 2;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Z(),center.Z())) mortonCode |= 4;
+            if (pointDb.X() > center.X()) mortonCode |= 1;
+            if (pointDb.Y() > center.Y()) mortonCode |= 2;
+            if (pointDb.Z() > center.Z()) mortonCode |= 4;
             childrenPointIndices[mortonCode].push_back(pointIdx);
         }
 
@@ -125,13 +125,13 @@ LNLib::Octant* LNLib::OctreeConstruction(const std::vector<LNLib::XYZ>& db, int
 
     for (const auto& p : db) {
 
-        if (LNLib::MathUtils::IsLessThan(p.X(),dbMin.X())) dbMin.X() = p.X();
-        if (LNLib::MathUtils::IsLessThan(p.Y(),dbMin.Y())) dbMin.Y() = p.Y();
-        if (LNLib::MathUtils::IsLessThan(p.Z(),dbMin.Z())) dbMin.Z() = p.Z();
+        if (p.X() < dbMin.X()) dbMin.X() = p.X();
+        if (p.Y() < dbMin.Y()) dbMin.Y() = p.Y();
+        if (p.Z() < dbMin.Z()) dbMin.Z() = p.Z();
 
-        if (LNLib::MathUtils::IsGreaterThan(p.X(),dbMax.X())) dbMax.X() = p.X();
-        if (LNLib::MathUtils::IsGreaterThan(p.Y(),dbMax.Y())) dbMax.Y() = p.Y();
-        if (LNLib::MathUtils::IsGreaterThan(p.Z(),dbMax.Z())) dbMax.Z() = p.Z();
+        if (p.X() > dbMax.X()) dbMax.X() = p.X();
+        if (p.Y() > dbMax.Y()) dbMax.Y() = p.Y();
+        if (p.Z() > dbMax.Z()) dbMax.Z() = p.Z();
     }
 
     double dbExtent = std::max({ dbMax.X() - dbMin.X(),
@@ -189,9 +189,9 @@ bool LNLib::OctreeRadiusSearch(LNLib::Octant* root, const std::vector<LNLib::XYZ
     }
 
     int mortonCode = 0;
-    if (LNLib::MathUtils::IsGreaterThan(query.X(),root->Center.X())) mortonCode |= 1;
-    if (LNLib::MathUtils::IsGreaterThan(query.Y(),root->Center.Y())) mortonCode |= 2;
-    if (LNLib::MathUtils::IsGreaterThan(query.Z(),root->Center.Z())) mortonCode |= 4;
+    if (query.X() > root->Center.X()) mortonCode |= 1;
+    if (query.Y() > root->Center.Y()) mortonCode |= 2;
+    if (query.Z() > root->Center.Z()) mortonCode |= 4;
 
     if (LNLib::OctreeRadiusSearch(root->Children[mortonCode], db, resultSet, query))
         return true;
@@ -218,9 +218,9 @@ bool LNLib::OctreeKnnSearch(LNLib::Octant* root, const std::vector<LNLib::XYZ>&
     }
 
     int mortonCode = 0;
-    if (LNLib::MathUtils::IsGreaterThan(query.X(),root->Center.X())) mortonCode |= 1;
-    if (LNLib::MathUtils::IsGreaterThan(query.Y(),root->Center.Y())) mortonCode |= 2;
-    if (LNLib::MathUtils::IsGreaterThan(query.Z(),root->Center.Z())) mortonCode |= 4;
+    if (query.X() > root->Center.X()) mortonCode |= 1;
+    if (query.Y() > root->Center.Y()) mortonCode |= 2;
+    if (query.Z() > root->Center.Z()) mortonCode |= 4;
 
     if (LNLib::OctreeKnnSearch(root->Children[mortonCode], db, resultSet, query))
         return true;
diff --git a/src/LNLib/Algorithm/Octree/OctreeCollector.cpp b/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
index f4d269d..4a3224e 100644
--- a/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
+++ b/src/LNLib/Algorithm/Octree/OctreeCollector.cpp
@@ -26,7 +26,7 @@ double LNLib::KnnResultSet::WorstDist() const { return WorstDistValue; }
 void LNLib::KnnResultSet::AddPoint(double dist, int index) {
     ComparisonCounter++;
 
-    if (MathUtils::IsGreaterThan(dist,WorstDistValue)) return;
+    if (dist > WorstDistValue) return;
 
     int i;
     if (Count < Capacity) {
@@ -38,7 +38,7 @@ void LNLib::KnnResultSet::AddPoint(double dist, int index) {
     }
 
     while (i > 0) {
-        if (MathUtils::IsGreaterThan(DistIndexList[i - 1].Distance,dist)) {
+        if (DistIndexList[i - 1].Distance > dist) {
             DistIndexList[i] = DistIndexList[i - 1];
             i--;
         }
@@ -61,7 +61,7 @@ double LNLib::RadiusNnResultSet::WorstDist() const { return Radius; }
 
 void LNLib::RadiusNnResultSet::AddPoint(double dist, int index) {
     ComparisonCounter++;
-    if (MathUtils::IsGreaterThan(dist,Radius)) return;
+    if (dist > Radius) return;
 
     Count++;
     DistIndexList.push_back(DistIndex(dist, index));
-- 
2.43.0


From 8854c3e65c5b43f9c10ee0c9d27640eddcfab170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 063/101] fix: GetInsertedKnotElement counts the multiplicity
 of interior start and end parameters

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..2e3a513 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -82,15 +82,7 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 
 	std::vector<double> result;
 
-	int startMulti = 0;
-	for (double k : knotVector) {
-		if (MathUtils::IsAlmostEqualTo(k, startParam)) {
-			++startMulti;
-		}
-		else {
-			break; 
-		}
-	}
+	int startMulti = Polynomials::GetKnotMultiplicity(knotVector, startParam);
 
 	if (startMulti < degree + 1) { 
 		int need = (degree + 1) - startMulti;
@@ -99,15 +91,7 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		}
 	}
 
-	int endMulti = 0;
-	for (auto it = knotVector.rbegin(); it != knotVector.rend(); ++it) {
-		if (MathUtils::IsAlmostEqualTo(*it, endParam)) {
-			++endMulti;
-		}
-		else {
-			break;
-		}
-	}
+	int endMulti = Polynomials::GetKnotMultiplicity(knotVector, endParam);
 
 	if (endMulti < degree + 1) {
 		int need = (degree + 1) - endMulti;
-- 
2.43.0


From 06fc9face075a056ccff48e197c35b394f62ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 064/101] fix: IsUniform and GetInternalKnotMultiplicityMap
 accept a vector with one distinct knot

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 2e3a513..43fc74e 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -121,8 +121,11 @@ std::map<double, int> LNLib::KnotVectorUtils::GetInternalKnotMultiplicityMap(con
 	if (!result.empty()) 
 	{
 		result.erase(result.begin());
-		auto lastElementIterator = prev(result.end(), 1);
-		result.erase(lastElementIterator);
+		if (!result.empty())
+		{
+			auto lastElementIterator = prev(result.end(), 1);
+			result.erase(lastElementIterator);
+		}
 	}
 	return result;
 }
@@ -262,7 +265,7 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElements(int insertKn
 bool LNLib::KnotVectorUtils::IsUniform(const std::vector<double>& knotVector)
 {
 	auto map = GetKnotMultiplicityMap(knotVector);
-	if (map.empty())
+	if (map.size() < 2)
 	{
 		return false;
 	}
-- 
2.43.0


From e48bffc3e581e193073e70c17edf4dd503e45294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 065/101] fix: MathUtils::MakeInverse reports singular matrices

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp   | 2 +-
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e4c094d..8e7c2ad 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3478,7 +3478,7 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	MathUtils::Transpose(Bopt, Bt);
 	std::vector<std::vector<double>> BoptBt = MathUtils::MatrixMultiply(Bopt, Bt);
 	std::vector<std::vector<double>> BBt;
-	MathUtils::MakeInverse(BoptBt, BBt);
+	VALIDATE_ARGUMENT(MathUtils::MakeInverse(BoptBt, BBt), "derivativeConstraints", "Constraints must be independent.");
 
 	auto A = MathUtils::MatrixMultiply(Bt, BBt);
 	std::vector<std::vector<double>> dD(D.size(), std::vector<double>(3));
diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..06bfd19 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -211,7 +211,13 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
-    auto result = m.inverse();
+    Eigen::FullPivLU<Eigen::MatrixXd> lu(m);
+    if (!lu.isInvertible())
+    {
+        return false;
+    }
+
+    Eigen::MatrixXd result = m.inverse();
     inverse.resize(row);
     for (int k = 0; k < row; k++)
     {
-- 
2.43.0


From 47b15460dc452e7da36e7786f3c1524671a3fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 066/101] fix: Matrix4d::IsIdentity and IsTranslation look at
 every element

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 52 ++++++++++---------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..6c090fd 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -347,30 +347,16 @@ double LNLib::Matrix4d::GetDeterminant()
 
 bool LNLib::Matrix4d::IsIdentity()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	if (!c1)
+	if (!IsTranslation())
 	{
 		return false;
 	}
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	if (!c2)
+	for (int i = 0; i < 3; i++)
 	{
-		return false;
-	}
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-	if (!c3)
-	{
-		return false;
-	}
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	if (!c4)
-	{
-		return false;
+		if (!MathUtils::IsAlmostEqualTo(m_matrix4d[i][3], 0.0))
+		{
+			return false;
+		}
 	}
 	return true;
 }
@@ -384,17 +370,21 @@ bool LNLib::Matrix4d::HasReflection()
 
 bool LNLib::Matrix4d::IsTranslation()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	return c1 && c2 && c3 && c4;
+	for (int i = 0; i < 4; i++)
+	{
+		for (int j = 0; j < 4; j++)
+		{
+			if (j == 3 && i < 3)
+			{
+				continue;
+			}
+			if (!MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], i == j ? 1.0 : 0.0))
+			{
+				return false;
+			}
+		}
+	}
+	return true;
 }
 
 
-- 
2.43.0


From eb735b42ef6594c81e87bdf9ada955a1236aca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:10 +0000
Subject: [PATCH 067/101] fix: ordered comparisons handle infinities

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index 06bfd19..9044e8b 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -53,12 +53,14 @@ bool LNLib::MathUtils::IsAlmostEqualTo(double a, double b, double tolerance)
 bool LNLib::MathUtils::IsGreaterThan(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a > b;
     return (a - b) > tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
 }
 
 bool LNLib::MathUtils::IsGreaterThanOrEqual(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a >= b;
     double eps = tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
     return (a - b) >= -eps;
 }
@@ -66,12 +68,14 @@ bool LNLib::MathUtils::IsGreaterThanOrEqual(double a, double b, double tolerance
 bool LNLib::MathUtils::IsLessThan(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a < b;
     return (b - a) > tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
 }
 
 bool LNLib::MathUtils::IsLessThanOrEqual(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a <= b;
     double eps = tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
     return (a - b) <= eps;
 }
-- 
2.43.0


From a48913fcefd90c5308ce977296adb751d06608a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:52 +0000
Subject: [PATCH 068/101] fix: the cubic equation solver always ends and
 returns a root

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 51 +++++++++++++++++++----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index 9044e8b..f5a944c 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -22,6 +22,7 @@
 #include <Eigen/SparseLU>
 #include <Eigen/Sparse>
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -127,15 +128,51 @@ double LNLib::MathUtils::Binomial(int number, int i)
 
 double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, double quadratic, double linear, double constant)
 {
-    double result;
-    double initial = 0.001;
-    result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
-    while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
+    auto value = [&](double x) { return ((cubic * x + quadratic) * x + linear) * x + constant; };
+    auto derivative = [&](double x) { return (3 * cubic * x + 2 * quadratic) * x + linear; };
+
+    const int maxIterations = 100;
+    double current = 0.001;
+    for (int i = 0; i < maxIterations; i++)
     {
-        initial = result;
-        result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
+        double next = current - value(current) / derivative(current);
+        if (IsNaN(next) || IsInfinite(next))
+        {
+            break;
+        }
+        if (!IsGreaterThan(std::abs(next - current), Constants::DoubleEpsilon))
+        {
+            return next;
+        }
+        current = next;
     }
-    return result;
+
+    // Newton iteration fails: use the closed forms and, for a cubic, bisection between the bounds of its roots.
+    if (cubic == 0.0)
+    {
+        if (quadratic == 0.0)
+        {
+            return -constant / linear;
+        }
+        double discriminant = linear * linear - 4 * quadratic * constant;
+        return (-linear + std::sqrt(discriminant)) / (2 * quadratic);
+    }
+    double bound = 1 + std::max({ std::abs(quadratic / cubic), std::abs(linear / cubic), std::abs(constant / cubic) });
+    double low = -bound;
+    double high = bound;
+    for (int i = 0; i < maxIterations; i++)
+    {
+        double middle = 0.5 * (low + high);
+        if ((value(middle) > 0) == (cubic > 0))
+        {
+            high = middle;
+        }
+        else
+        {
+            low = middle;
+        }
+    }
+    return 0.5 * (low + high);
 }
 
 std::vector<std::vector<double>> LNLib::MathUtils::MatrixMultiply(const std::vector<std::vector<double>>& left, const std::vector<std::vector<double>>& right)
-- 
2.43.0


From 4b6496fb63bb877345b35e85e9982b860bb5d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:10 +0000
Subject: [PATCH 069/101] fix: CreateRandomOrthogonal handles vectors parallel
 to (1,-1,1)

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..6e752e4 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -175,7 +175,11 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 {
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
-	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	double x = std::fabs(normal.GetX());
+	double y = std::fabs(normal.GetY());
+	double z = std::fabs(normal.GetZ());
+	XYZ axis = (x <= y && x <= z) ? XYZ(1, 0, 0) : (y <= z ? XYZ(0, 1, 0) : XYZ(0, 0, 1));
+	XYZ tangent = normal.CrossProduct(axis);
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
-- 
2.43.0


From 2673366827594eaabe86c8376f42229e9d6d6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 070/101] fix: NurbsSurface::GlobalInterpolation pairs rows
 with u and columns with v

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f45ff63..5c6fb7b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2166,8 +2166,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	int rows = static_cast<int>(throughPoints.size());
 	int cols = static_cast<int>(throughPoints[0].size());
 
-	VALIDATE_ARGUMENT(cols > degreeU, "throughPoints", "Column size must be greater than degreeU.");
-	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
+	VALIDATE_ARGUMENT(rows > degreeU, "throughPoints", "Row size must be greater than degreeU.");
+	VALIDATE_ARGUMENT(cols > degreeV, "throughPoints", "Column size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
 	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
@@ -2187,8 +2187,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				A[eqIdx][ctrlIdx] = 1.0;
 			}
 			else {
-				double u = uk[j];
-				double v = vl[i];
+				double u = uk[i];
+				double v = vl[j];
 
 				int spanU = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, u);
 				int spanV = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, v);
@@ -2199,16 +2199,16 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				Polynomials::BasisFunctions(spanU, degreeU, knotVectorU, u, basisU);
 				Polynomials::BasisFunctions(spanV, degreeV, knotVectorV, v, basisV);
 
-				for (int l = 0; l <= degreeV; ++l) {
-					int ctrlRow = spanV - degreeV + l;
+				for (int k = 0; k <= degreeU; ++k) {
+					int ctrlRow = spanU - degreeU + k;
 					if (ctrlRow < 0 || ctrlRow >= rows) continue;
 
-					for (int k = 0; k <= degreeU; ++k) {
-						int ctrlCol = spanU - degreeU + k;
+					for (int l = 0; l <= degreeV; ++l) {
+						int ctrlCol = spanV - degreeV + l;
 						if (ctrlCol < 0 || ctrlCol >= cols) continue;
 
 						int ctrlIdx = ctrlRow * cols + ctrlCol;
-						A[eqIdx][ctrlIdx] = basisV[l] * basisU[k];
+						A[eqIdx][ctrlIdx] = basisU[k] * basisV[l];
 					}
 				}
 			}
-- 
2.43.0


From d2d72b426fdb98ea004762d8a4f8b927364c51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 071/101] fix: BicubicLocalInterpolation passes through the
 points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 41 +++++++++------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5c6fb7b..bdfcd5c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -78,10 +78,11 @@ namespace LNLib
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
-		for (int i = 0; i < size; ++i)
+		ind.reserve(2 * size);
+		for (int i = 0; i <= 3 * (size - 1); ++i)
 		{
-			ind.push_back(3 * i);
+			if (i % 3 == 0 && i != 0 && i != 3 * (size - 1)) continue;
+			ind.push_back(i);
 		}
 		return ind;
 	}
@@ -2253,6 +2254,8 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		VALIDATE_ARGUMENT(throughPoints[i].size() == column, "throughPoints", "All rows must have the same number of columns.");
 	}
 
+	VALIDATE_ARGUMENT(row > 1 && column > 1, "throughPoints", "ThroughPoints must have at least two rows and two columns.");
+
 	int degreeU = 3;
 	int degreeV = 3;
 
@@ -2280,7 +2283,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		r[l] = 0.0;
 		for (int k = 0; k <= n; k++)
 		{
-			td[k][l][1] = tvkl[k];
+			td[k][l][0] = tvkl[k];
 
 			if (k > 0)
 			{
@@ -2306,7 +2309,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		s[k] = 0.0;
 		for (int l = 0; l <= m; l++)
 		{
-			td[k][l][0] = tukl[l];
+			td[k][l][1] = tukl[l];
 
 			if (l > 0)
 			{
@@ -2325,16 +2328,6 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	}
 	vb[m] = 1.0;
 
-	std::vector<double> rowTotalLen(row);
-	std::vector<double> colTotalLen(column);
-	for (int i = 0; i < row; ++i) {
-		rowTotalLen[i] = Interpolation::GetTotalChordLength(throughPoints[i]);
-	}
-	for (int j = 0; j < column; ++j) {
-		auto col = MathUtils::GetColumn(throughPoints, j);
-		colTotalLen[j] = Interpolation::GetTotalChordLength(col);
-	}
-
 	std::vector<std::vector<XYZ>> bezierControlPoints(3 * row - 2, std::vector<XYZ>(3 * column - 2, XYZ(0, 0, 0)));
 
 	for (int i = 0; i < row; i++)
@@ -2352,9 +2345,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = vb[j + 1] - vb[j];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2375,9 +2368,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = ub[i + 1] - ub[i];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2432,15 +2425,17 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
-	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+	for (int i = 1; i < n; ++i) {
+		knotVectorU[degreeU + 2 * i - 1] = ub[i];
+		knotVectorU[degreeU + 2 * i] = ub[i];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
-	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+	for (int i = 1; i < m; ++i) {
+		knotVectorV[degreeV + 2 * i - 1] = vb[i];
+		knotVectorV[degreeV + 2 * i] = vb[i];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From 6ce3a63606d1fe0c47793b779b862b340758aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 072/101] fix: surface GlobalApproximation uses common
 parameters and pairs rows with u

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  4 ++--
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 19 +++++++++++--------
 src/LNLib/include/NurbsCurve.h              |  2 +-
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8e7c2ad..dc59c7a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2370,7 +2370,7 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 	curve.ControlPoints = controlPoints;
 	return true;
 }
-bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve)
+bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve, const std::vector<double>& params)
 {
 	VALIDATE_ARGUMENT(degree >= 0 && degree <= Constants::NURBSMaxDegree, "degree", "Degree must be greater than or equal zero and not exceed the maximun degree.");
 	VALIDATE_ARGUMENT(controlPointsCount > 0, "controlPointsCount", "controlPointsCount must be greater than zero.");
@@ -2378,7 +2378,7 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 	int n = controlPointsCount - 1;
 	int m = throughPoints.size() - 1;
 
-	std::vector<double> uk = Interpolation::GetChordParameterization(throughPoints);
+	std::vector<double> uk = params.size() == 0 ? Interpolation::GetChordParameterization(throughPoints) : params;
 	std::vector<double> knotVector(n + degree + 2, 1.0);
 	double d = (double)(m + 1) / (double)(n - degree + 1);
 	for (int j = 0; j <= degree; j++)
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index bdfcd5c..4eb09bb 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2459,25 +2459,28 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	VALIDATE_ARGUMENT(throughPoints[0].size() > 0, "throughPoints", "ThroughPoints column size must be greater than zero.");
 	VALIDATE_ARGUMENT(degreeU > 0 && degreeU <= Constants::NURBSMaxDegree, "degreeU", "Invalid degreeU.");
 	VALIDATE_ARGUMENT(degreeV > 0 && degreeV <= Constants::NURBSMaxDegree, "degreeV", "Invalid degreeV.");
-	VALIDATE_ARGUMENT(controlPointsRows > degreeV, "controlPointsRows", "Control points rows must be > degreeV.");
-	VALIDATE_ARGUMENT(controlPointsColumns > degreeU, "controlPointsColumns", "Control points columns must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsRows > degreeU, "controlPointsRows", "Control points rows must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsColumns > degreeV, "controlPointsColumns", "Control points columns must be > degreeV.");
 
 	int dataRows = static_cast<int>(throughPoints.size());
 	int dataCols = static_cast<int>(throughPoints[0].size());
 
+	std::vector<double> uk, vl;
+	if (!Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl)) return false;
+
 	std::vector<std::vector<XYZ>> tempControlPoints;
-	std::vector<double> knotVectorU;
+	std::vector<double> knotVectorV;
 
 	for (int i = 0; i < dataRows; ++i) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, throughPoints[i], controlPointsColumns, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, throughPoints[i], controlPointsColumns, curve, vl);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		tempControlPoints.push_back(xyzPoints);
 
 		if (i == 0) {
-			knotVectorU = curve.KnotVector;
+			knotVectorV = curve.KnotVector;
 		}
 	}
 
@@ -2485,18 +2488,18 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	MathUtils::Transpose(tempControlPoints, transposed);
 
 	std::vector<std::vector<XYZ>> finalControlPoints;
-	std::vector<double> knotVectorV;
+	std::vector<double> knotVectorU;
 
 	for (int j = 0; j < static_cast<int>(transposed.size()); ++j) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, transposed[j], controlPointsRows, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, transposed[j], controlPointsRows, curve, uk);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		finalControlPoints.push_back(xyzPoints);
 
 		if (j == 0) {
-			knotVectorV = curve.KnotVector;
+			knotVectorU = curve.KnotVector;
 		}
 	}
 
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index f256034..df9957e 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -244,7 +244,7 @@ namespace LNLib
 		/// Referenced from https://github.com/iTwin/imodel-native (Bentley Software): 
 		///		MSBsplineCurve::GeneralLeastSquaresApproximation.
 		/// </summary>
-		static bool LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve);
+		static bool LeastSquaresApproximation(int degree, const std::vector<XYZ>& throughPoints, int controlPointsCount, LN_NurbsCurve& curve, const std::vector<double>& params = {});
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page413
-- 
2.43.0


From eef9e00baa4356430ed646c817586407e332cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 073/101] fix: loft surfaces contain their sections for any
 degrees, knots, domains and weights

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 46 ++++++++++++++++-----
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4eb09bb..b0291d5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2616,6 +2616,8 @@ bool LNLib::NurbsSurface::CreateSwungSurface(const LN_NurbsCurve& profile, const
 
 void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& sections, LN_NurbsSurface& surface, int customTrajectoryDegree, const std::vector<double>& customTrajectoryKnotVector)
 {
+	VALIDATE_ARGUMENT(sections.size() > 1, "sections", "Sections size must be greater than one.");
+
 	int degree_max = 0;
 	for (int k = 0; k < sections.size(); k++)
 	{
@@ -2633,6 +2635,10 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	for (int k = 0; k < size; k++)
 	{
 		LN_NurbsCurve current = sections[k];
+		if (current.KnotVector.front() != sections[0].KnotVector.front() || current.KnotVector.back() != sections[0].KnotVector.back())
+		{
+			NurbsCurve::Reparametrize(sections[k], sections[0].KnotVector.front(), sections[0].KnotVector.back(), current);
+		}
 		if (degree_max > current.Degree)
 		{
 			int times = degree_max - current.Degree;
@@ -2642,12 +2648,29 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	// Make the knot vectors of the sections compatible.
+	std::vector<std::vector<double>> knotVectors(size);
+	for (int k = 0; k < size; k++)
+	{
+		knotVectors[k] = internals[k].KnotVector;
+	}
+	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
-	int degreeV = degree_max;
+	int degreeV = std::min(degree_max, size - 1);
 
 	std::vector<double> vl(size);
 	if (customTrajectoryKnotVector.size() == 0)
@@ -2661,6 +2684,7 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			std::vector<XYZW> current = curvesControlPoints[k];
 			int n = current.size() - 1;
 			double sum = 0.0;
+			int num = 0;
 			for (int i = 0; i <= n; i++)
 			{
 				double delta = curvesControlPoints[k][i].ToXYZ(true).Distance(curvesControlPoints[k - 1][i].ToXYZ(true));
@@ -2672,10 +2696,12 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 				}
 
 				double di = Interpolation::GetTotalChordLength(tempPoints);
+				if (MathUtils::IsAlmostEqualTo(di, 0.0)) continue;
 				sum += delta / di;
+				num++;
 			}
 
-			vl[k] = vl[k - 1] + (1.0 / (n + 1)) * sum;
+			vl[k] = vl[k - 1] + (num > 0 ? sum / num : 1.0 / K);
 		}
 	}
 	else
@@ -2688,22 +2714,22 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	int column = curvesControlPoints[0].size();
 	for (int c = 0; c < column; c++)
 	{
+		// Interpolate in homogeneous coordinates, so that rational sections lie on the surface.
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weights(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
+			weights[k] = XYZ(cp.GetW(), 0, 0);
 		}
-		LN_NurbsCurve tc;
+		LN_NurbsCurve tc, wc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		NurbsCurve::GlobalInterpolation(degreeV, weights, wc, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
 			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			tc.ControlPoints[i] = XYZW(cp.GetWX(), cp.GetWY(), cp.GetWZ(), wc.ControlPoints[i].GetWX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From a363df5521daa2be2c2462340874620c37338362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 074/101] fix: Coons surface boundaries are the given curves

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b0291d5..9f2b10f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3164,8 +3164,8 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	{
 		LN_NurbsCurve tc;
-		NurbsCurve::Reverse(nurbs[2], tc);
-		nurbs[2] = tc;
+		NurbsCurve::Reverse(nurbs[0], tc);
+		nurbs[0] = tc;
 	}
 
 	{
@@ -3182,10 +3182,10 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		nurbs[i] = tc;
 	}
 
-	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
-	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
-	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
-	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
+	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
+	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
 
 	VALIDATE_ARGUMENT(isP00 & isP01 & isP10 & isP11, "Curves", "Four Corners must be connected.");
 
-- 
2.43.0


From 570b85bd23670cc92f7a5a1b0494eee86df0a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 075/101] fix: Gordon surface contains its curves

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 29 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9f2b10f..e5d97eb 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3001,10 +3001,24 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	int rows = intersectionPoints.size();
 	int columns = intersectionPoints[0].size();
 
+	// The curves intersect evenly in parameter space: the three surfaces share these parameters and degrees.
+	int degreeU = std::min(columns - 1, degree_u_max);
+	int degreeV = std::min(rows - 1, degree_v_max);
+	std::vector<double> paramsU(columns, 0.0);
+	for (int j = 1; j < columns; j++)
+	{
+		paramsU[j] = (double)j / (columns - 1);
+	}
+	std::vector<double> paramsV(rows, 0.0);
+	for (int i = 1; i < rows; i++)
+	{
+		paramsV[i] = (double)i / (rows - 1);
+	}
+
 	LN_NurbsSurface loftSurfaceV;
-	CreateLoftSurface(uInternals, loftSurfaceV);
+	CreateLoftSurface(uInternals, loftSurfaceV, degreeV, paramsV);
 	LN_NurbsSurface ts;
-	CreateLoftSurface(vInternals, ts);
+	CreateLoftSurface(vInternals, ts, degreeU, paramsU);
 	std::vector<std::vector<XYZW>> transposedControlPoints;
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface loftSurfaceU;
@@ -3014,12 +3028,13 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	loftSurfaceU.KnotVectorV = ts.KnotVectorU;
 	loftSurfaceU.ControlPoints = transposedControlPoints;
 
-	int degreeU = std::min(columns - 1, degree_u_max);
-	int degreeV = std::min(rows - 1, degree_v_max);
-	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
-	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
+	std::vector<LN_NurbsCurve> interpolatedCurves(rows);
+	for (int i = 0; i < rows; i++)
+	{
+		NurbsCurve::GlobalInterpolation(degreeU, intersectionPoints[i], interpolatedCurves[i], paramsU);
+	}
 	LN_NurbsSurface interpolatedSurface;
-	Swap(ts, interpolatedSurface);
+	CreateLoftSurface(interpolatedCurves, interpolatedSurface, degreeV, paramsV);
 
 	{
 		int lsu_degreeU = loftSurfaceU.DegreeU;
-- 
2.43.0


From ee26d07f64f656417f9b0d11d04b0891685965ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:08 +0000
Subject: [PATCH 076/101] fix: merging knot vectors treats knots equal within
 tolerance as one knot

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 43fc74e..96117f9 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -18,6 +18,20 @@
 
 namespace LNLib
 {
+	std::map<double, int>::iterator FindKnot(std::map<double, int>& map, double knot)
+	{
+		auto it = map.lower_bound(knot);
+		if (it != map.end() && MathUtils::IsAlmostEqualTo(it->first, knot))
+		{
+			return it;
+		}
+		if (it != map.begin() && MathUtils::IsAlmostEqualTo(std::prev(it)->first, knot))
+		{
+			return std::prev(it);
+		}
+		return map.end();
+	}
+
 	void InsertMidKnotCore(std::vector<double>& unqiueKnotVector, std::vector<double>& insert, int limitNumber)
 	{
 		if (insert.size() == limitNumber)
@@ -140,7 +154,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key0 = it->first;
 		int count0 = it->second;
 
-		auto got = map1.find(key0);
+		auto got = FindKnot(map1, key0);
 		if (got == map1.end())
 		{
 			for (int i = 0; i < count0; i++)
@@ -156,7 +170,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 				int times = count0 - count1;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements1.emplace_back(key0);
+					insertElements1.emplace_back(got->first);
 				}
 			}
 			else
@@ -175,7 +189,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key1 = it->first;
 		int count1 = it->second;
 
-		auto got = map0.find(key1);
+		auto got = FindKnot(map0, key1);
 		if (got == map0.end())
 		{
 			for (int i = 0; i < count1; i++)
@@ -200,7 +214,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 		{
 			double key = it->first;
 			int count = it->second;
-			auto got = finalMap.find(key);
+			auto got = FindKnot(finalMap, key);
 			if (got == finalMap.end())
 			{
 				finalMap.insert({ key, count });
@@ -210,7 +224,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int currentCount = got->second;
 				if (currentCount < count)
 				{
-					finalMap[key] = count;
+					got->second = count;
 				}
 			}
 		}
@@ -228,7 +242,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 			double key = it->first;
 			int count = it->second;
 
-			auto got = map.find(key);
+			auto got = FindKnot(map, key);
 			if (got == map.end())
 			{
 				for (int j = 0; j < count; j++)
@@ -242,7 +256,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int times = count - currentCount;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements.emplace_back(key);
+					insertElements.emplace_back(got->first);
 				}
 			}
 		}
-- 
2.43.0


From 8b8b92c2b73e159e5e9076020e27ea7589d16876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 077/101] fix: Gordon surface of curves whose weights are all
 equal

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e5d97eb..d486ef9 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2941,6 +2941,13 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	{
 		knotVectorsU.emplace_back(uInternals[i].KnotVector);
 	}
+	for (int i = 0; i < uInternals.size(); i++)
+	{
+		for (auto& controlPoint : uInternals[i].ControlPoints)
+		{
+			controlPoint = XYZW(controlPoint.ToXYZ(true), 1.0);
+		}
+	}
 	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectorsU);
 	for (int i = 0; i < uInternals.size(); i++)
 	{
@@ -2986,6 +2993,13 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	{
 		knotVectorsV.emplace_back(vInternals[i].KnotVector);
 	}
+	for (int i = 0; i < vInternals.size(); i++)
+	{
+		for (auto& controlPoint : vInternals[i].ControlPoints)
+		{
+			controlPoint = XYZW(controlPoint.ToXYZ(true), 1.0);
+		}
+	}
 	insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectorsV);
 	for (int i = 0; i < vInternals.size(); i++)
 	{
-- 
2.43.0


From bd00c50e1983715aed0901f8b151f32e8c0397b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:12 +0000
Subject: [PATCH 078/101] fix: surface area by Simpson's rule starts from the
 knot spans, and is not NaN where partial derivatives are parallel

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 31 +++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d486ef9..8094ea5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -59,7 +59,7 @@ namespace LNLib
 			double E = Su.DotProduct(Su);
 			double F = Su.DotProduct(Sv);
 			double G = Sv.DotProduct(Sv);
-			double ds = std::sqrt(E * G - F * F);
+			double ds = std::sqrt(std::max(0.0, E * G - F * F));
 			return ds;
 		}
 	};
@@ -3486,24 +3486,33 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 					double E = Su.DotProduct(Su);
 					double F = Su.DotProduct(Sv);
 					double G = Sv.DotProduct(Sv);
-					double ds = std::sqrt(E * G - F * F);
+					double ds = std::sqrt(std::max(0.0, E * G - F * F));
 					return ds;
 				}
 			}function;
 
-			// the initial search range
+			// the initial search ranges are the knot spans, where the integrand is smooth
 			struct UVA
 			{
 				double u1, u2, v1, v2;
 				double area;
 			};
-			UVA init;
-			init.u1 = 0;
-			init.u2 = 1;
-			init.v1 = 0;
-			init.v2 = 1;
-			init.area = Integrator::Simpson(function, (void*)&reSurface, init.u1, init.u2, init.v1, init.v2);
-			std::vector<UVA> stack(1, init);
+			std::vector<UVA> stack;
+			for (int i = degreeU; i < controlPoints.size(); i++)
+			{
+				if (MathUtils::IsAlmostEqualTo(knotVectorU[i], knotVectorU[i + 1])) continue;
+				for (int j = degreeV; j < controlPoints[0].size(); j++)
+				{
+					if (MathUtils::IsAlmostEqualTo(knotVectorV[j], knotVectorV[j + 1])) continue;
+					UVA init;
+					init.u1 = knotVectorU[i];
+					init.u2 = knotVectorU[i + 1];
+					init.v1 = knotVectorV[j];
+					init.v2 = knotVectorV[j + 1];
+					init.area = Integrator::Simpson(function, (void*)&reSurface, init.u1, init.u2, init.v1, init.v2);
+					stack.push_back(init);
+				}
+			}
 
 			while(!stack.empty())
 			{
@@ -3589,7 +3598,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 						double E = Su.DotProduct(Su);
 						double F = Su.DotProduct(Sv);
 						double G = Sv.DotProduct(Sv);
-						double ds = std::sqrt(E * G - F * F);
+						double ds = std::sqrt(std::max(0.0, E * G - F * F));
 						bArea += Integrator::GaussLegendreWeights[i] * Integrator::GaussLegendreWeights[j] * ds;
 					}
 				}
-- 
2.43.0


From b8498f08b9ba8c0ffc3dfc37c988529c08d14ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 079/101] fix: the normals of a closed curve are projected
 backwards, of unit length, within bounds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index dc59c7a..3e79e01 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -495,24 +495,29 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 		}
 	}
 
-	bool isClosed = IsClosed(curve);
+	XYZ Tm = ComputeRationalCurveDerivatives(curve, 1, vm)[1].Normalize();
+	bool isClosed = IsClosed(curve) && T0.IsAlmostEqualTo(Tm);
 	if (isClosed)
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
-			Baver[i] = bi.Normalize();
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
+			Baver[i] = bi.IsZero() ? Blist[i] : bi.Normalize();
 		}
 
 		for (int i = 1; i <= m - 1; i++)
 		{
-			Blist[i] = 0.5 * (Blist[i] + Baver[i]);
+			XYZ average = 0.5 * (Blist[i] + Baver[i]);
+			if (!average.IsZero())
+			{
+				Blist[i] = average.Normalize();
+			}
 		}
 	}
 	return Blist;
-- 
2.43.0


From eb311ca7210c0eb60a95705eb13a7ea3c0aaf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 080/101] fix: swept sections stand perpendicular to the
 trajectory and reach its end

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 8094ea5..b4cc48b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2827,7 +2827,8 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 		// Build local coordinate system for the section.
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(trajectoryCopy, 1, vk[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(trajectoryCopy.Degree, trajectoryCopy.KnotVector, vk[k]);
-		const XYZ& xdir = Bv[spanIndex];
+		XYZ xdir = Bv[spanIndex] - (Bv[spanIndex].DotProduct(zdir)) * zdir;
+		xdir = xdir.IsZero() ? XYZ::CreateRandomOrthogonal(zdir) : xdir.Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		// Transform the input profile to the lofting position.
@@ -2867,10 +2868,11 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i + 1 < nsect - 1; i++)
 	{
 		segments[i + 1] = params[i];
 	}
+	segments[nsect - 1] = 1.0;
 
 	std::vector<XYZ> Bv = NurbsCurve::ProjectNormal(path);
 	const std::vector<XYZW>& profileControlPoints = profile.ControlPoints;
@@ -2881,7 +2883,8 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	{
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(path, 1, segments[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(path.Degree, path.KnotVector, segments[k]);
-		XYZ xdir = Bv[spanIndex];
+		XYZ xdir = Bv[spanIndex] - (Bv[spanIndex].DotProduct(zdir)) * zdir;
+		xdir = xdir.IsZero() ? XYZ::CreateRandomOrthogonal(zdir) : xdir.Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
-- 
2.43.0


From 2b6d7a268d7795cc049f7953adddc041ab2f1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 081/101] fix: CreateSwungSurface makes the swung surface of
 profile and trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 103 +++-----------------
 src/LNLib/include/NurbsSurface.h            |   2 +-
 2 files changed, 16 insertions(+), 89 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b4cc48b..35899b4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2516,100 +2516,27 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 
 bool LNLib::NurbsSurface::CreateSwungSurface(const LN_NurbsCurve& profile, const LN_NurbsCurve& trajectory, double scale, LN_NurbsSurface& surface)
 {
-	int pDegree = profile.Degree;
-	std::vector<double> pKnotVector = profile.KnotVector;
-	std::vector<XYZW> pControlPoints = profile.ControlPoints;
+	const std::vector<XYZW>& pControlPoints = profile.ControlPoints;
+	const std::vector<XYZW>& tControlPoints = trajectory.ControlPoints;
 
-	int tDegree = trajectory.Degree;
-	std::vector<double> tKnotVector = trajectory.KnotVector;
-	std::vector<XYZW> tControlPoints = trajectory.ControlPoints;
-
-	int size = tControlPoints.size();
-	int degreeU = pDegree;
-	int degreeV = tDegree;
-	std::vector<double> knotVectorU = pKnotVector;
-	std::vector<double> knotVectorV = tKnotVector;
-	std::vector<std::vector<XYZW>> controlPoints(pControlPoints.size(), std::vector<XYZW>(size));
-
-	std::vector<double> vl(size);
-	vl[0] = tKnotVector[tDegree];
-	vl[size - 1] = tKnotVector[tKnotVector.size() - tDegree - 1];
-	for (int k = 1; k < size - 1; k++)
-	{
-		vl[k] = 0.0;
-		for (int i = k + 1; i < k + tDegree + 1; i++)
-		{
-			vl[k] += knotVectorV[i];
-		}
-		vl[k] /= tDegree;
-	}
-
-	std::vector<XYZ> tempB(vl.size());
-	std::vector<XYZ> td = NurbsCurve::ComputeRationalCurveDerivatives(trajectory, 1, vl[0]);
-
-	tempB[0] = td[1];
-	if (MathUtils::IsAlmostEqualTo(td[1].GetY(), 0.0))
-	{
-		tempB[0] = XYZ(0, 1, 0).CrossProduct(tempB[0]);
-	}
-	else
-	{
-		tempB[0] = XYZ(1, 0, 0).CrossProduct(tempB[0]);
-	}
-	tempB[0] = tempB[0].Normalize();
-
-	for (int i = 1; i < vl.size(); i++)
-	{
-		td = NurbsCurve::ComputeRationalCurveDerivatives(trajectory, 1, vl[i]);
-		XYZ ti = td[1].Normalize();
-		XYZ bi = tempB[i - 1] - (tempB[i - 1] * ti) * ti;
-		tempB[i] = bi.Normalize();
-	}
-
-	LN_NurbsCurve Bv;
-	NurbsCurve::GlobalInterpolation(std::min(3, (int)(tempB.size() - 1)), tempB, Bv, vl);
-
-	for (int k = 0; k < size; k++)
-	{
-		std::vector<XYZW> tempCp(pControlPoints.size());
-		for (int i = 0; i < tempCp.size(); i++)
-		{
-			tempCp[i] = scale * pControlPoints[i];
-		}
-		td = NurbsCurve::ComputeRationalCurveDerivatives(trajectory, 1, vl[k]);
-		XYZ x = td[1].Normalize();
-		XYZ z = NurbsCurve::GetPointOnCurve(Bv, vl[k]).Normalize();
-		XYZ y = z.CrossProduct(x);
-
-		Matrix4d R(y, x, z, XYZ(0, 0, 1));
-		XYZ o = NurbsCurve::GetPointOnCurve(trajectory, vl[k]);
-		Matrix4d tx = Matrix4d::CreateTranslation(o);
-		Matrix4d A = tx.Multiply(R);
-		for (int i = 0; i < tempCp.size(); i++)
-		{
-			controlPoints[i][k] = A.OfWeightedPoint(tempCp[i]);
-		}
-	}
-
-	for (int i = 0; i < controlPoints.size(); i++)
+	int rows = pControlPoints.size();
+	int columns = tControlPoints.size();
+	std::vector<std::vector<XYZW>> controlPoints(rows, std::vector<XYZW>(columns));
+	for (int i = 0; i < rows; i++)
 	{
-		std::vector<XYZ> throughPoints(controlPoints[0].size());
-		for (int k = 0; k < controlPoints[0].size(); ++k)
-		{
-			throughPoints[k] = controlPoints[i][k].ToXYZ(true);
-		}
-		LN_NurbsCurve R;
-		NurbsCurve::GlobalInterpolation(degreeV, throughPoints, R, vl);
-		for (int k = 0; k < controlPoints[0].size(); k++)
+		XYZ p = pControlPoints[i].ToXYZ(true);
+		for (int j = 0; j < columns; j++)
 		{
-			controlPoints[i][k] = R.ControlPoints[k];
+			XYZ t = tControlPoints[j].ToXYZ(true);
+			XYZ point = XYZ(scale * p.GetX() * t.GetX(), scale * p.GetX() * t.GetY(), p.GetZ());
+			controlPoints[i][j] = XYZW(point, pControlPoints[i].GetW() * tControlPoints[j].GetW());
 		}
 	}
 
-	surface.DegreeU = degreeU;
-	surface.DegreeV = degreeV;
-	surface.KnotVectorU = knotVectorU;
-	surface.KnotVectorV = knotVectorV;
+	surface.DegreeU = profile.Degree;
+	surface.DegreeV = trajectory.Degree;
+	surface.KnotVectorU = profile.KnotVector;
+	surface.KnotVectorV = trajectory.KnotVector;
 	surface.ControlPoints = controlPoints;
 	return true;
 }
diff --git a/src/LNLib/include/NurbsSurface.h b/src/LNLib/include/NurbsSurface.h
index 9ff7749..e3f9ae7 100644
--- a/src/LNLib/include/NurbsSurface.h
+++ b/src/LNLib/include/NurbsSurface.h
@@ -217,7 +217,7 @@ namespace LNLib
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page456
 		/// Create swung surface.
-		/// The profile curve lie on the xz-plane and trajectory curve along its y-axis.
+		/// The profile curve lie on the xz-plane and trajectory curve lie on the xy-plane.
 		/// </summary>
 		static bool CreateSwungSurface(const LN_NurbsCurve& profile, const LN_NurbsCurve& trajectory, double scale, LN_NurbsSurface& surface);
 
-- 
2.43.0


From 40e8199e9e35a45743f9a1d94111c5b7112e2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:58 +0000
Subject: [PATCH 082/101] fix: surface area by Simpson's rule adds the
 estimated error of each piece

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 35899b4..a26dfba 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3482,8 +3482,8 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 				// The error is tolerated.
 				if(std::fabs(areaNew - uva.area) < Constants::DistanceEpsilon)
 				{
-					// Accumulate to the final area.
-					area += areaNew;
+					// Accumulate to the final area, with the error left estimated from both results.
+					area += areaNew + (areaNew - uva.area) / 15.0;
 				}
 				else
 				{
-- 
2.43.0


From acb297ee457bf2d23d5e8993469c22f32d9e8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:02 +0000
Subject: [PATCH 083/101] fix: let the C interface compile with gcc

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 dotnet/CAPI/src/Matrix4d_CAPI.cpp        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..5910756 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -10,6 +10,7 @@
 
 #include "KnotVectorUtils_CAPI.h"
 #include "KnotVectorUtils.h"
+#include <cstring>
 #include <vector>
 #include <map>
 
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
-- 
2.43.0


From a9ce06ea02dbd7032d28b55864bb1847984bc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:02 +0000
Subject: [PATCH 084/101] fix: LNLIB_POLY_power_to_bezier_matrix copies the
 computed matrix

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From bf736f8d1479302dbde9f373c5586d6ea70739ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:02 +0000
Subject: [PATCH 085/101] fix: C interface keeps separate storage for each of
 several results

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   | 29 ++++++++++++++++++++++++---
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 20 +++++++++++++++++-
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..6b480ad 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -17,6 +17,26 @@
 
 using namespace LNLib;
 
+// An operation that returns several curves needs storage for each of them: ToCAPI keeps only one.
+struct CurveStorage {
+	std::vector<double> knots;
+	std::vector<XYZW_C> control_points;
+};
+static LN_NurbsCurve_C ToCAPI(const LN_NurbsCurve& s, CurveStorage& storage) {
+	storage.knots = s.KnotVector;
+	storage.control_points.clear();
+	for (const auto& cp : s.ControlPoints) {
+		storage.control_points.push_back({ cp.GetWX(), cp.GetWY(), cp.GetWZ(), cp.GetW() });
+	}
+	LN_NurbsCurve_C c;
+	c.degree = s.Degree;
+	c.knot_vector = storage.knots.data();
+	c.knot_vector_count = static_cast<int>(storage.knots.size());
+	c.control_points = storage.control_points.data();
+	c.control_point_count = static_cast<int>(storage.control_points.size());
+	return c;
+}
+
 LN_NurbsCurve_C LNLIB_NURBSCUR_create_line(XYZ_C start, XYZ_C end) {
 	LN_NurbsCurve result;
 	NurbsCurve::CreateLine(ToXYZ(start), ToXYZ(end), result);
@@ -300,8 +320,9 @@ int LNLIB_NURBSCUR_split_at(
 	LN_NurbsCurve left, right;
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
-		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		static thread_local CurveStorage left_storage, right_storage;
+		*out_left = ToCAPI(left, left_storage);
+		*out_right = ToCAPI(right, right_storage);
 	}
 	return ok ? 1 : 0;
 }
@@ -337,8 +358,10 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	int max_segments) {
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
+	static thread_local std::vector<CurveStorage> storage;
+	storage.assign(n > 0 ? n : 0, CurveStorage());
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], storage[i]);
 	}
 	return n;
 }
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..55f602d 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -156,8 +156,26 @@ int LNLIB_NURBSSUR_reduce_degree(LN_NurbsSurface_C surface, int is_u_direction,
 int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurface_C* out_patches, int max_patches) {
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
+	static thread_local std::vector<LN_NurbsSurface> stored_patches;
+	static thread_local std::vector<std::vector<XYZW>> stored_points;
+	stored_patches = std::move(patches);
+	stored_points.assign(stored_patches.size(), std::vector<XYZW>());
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		const LN_NurbsSurface& patch = stored_patches[i];
+		for (const auto& row : patch.ControlPoints) {
+			stored_points[i].insert(stored_points[i].end(), row.begin(), row.end());
+		}
+		LN_NurbsSurface_C c;
+		c.degree_u = patch.DegreeU;
+		c.degree_v = patch.DegreeV;
+		c.knot_vector_u = patch.KnotVectorU.data();
+		c.knot_vector_count_u = static_cast<int>(patch.KnotVectorU.size());
+		c.knot_vector_v = patch.KnotVectorV.data();
+		c.knot_vector_count_v = static_cast<int>(patch.KnotVectorV.size());
+		c.control_points = reinterpret_cast<const XYZW_C*>(stored_points[i].data());
+		c.cp_rows = static_cast<int>(patch.ControlPoints.size());
+		c.cp_cols = patch.ControlPoints.empty() ? 0 : static_cast<int>(patch.ControlPoints[0].size());
+		out_patches[i] = c;
 	}
 	return n;
 }
-- 
2.43.0


From 0e559636c976e11f423e287bf10d23a256c45cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:06 +0000
Subject: [PATCH 086/101] fix: least squares approximation with two control
 points reads past an empty vector

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3e79e01..6b405d0 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2397,6 +2397,15 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n == 1)
+	{
+		// two control points: the end points, nothing is left to solve for
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0


From 21ea7c00c226c58ec451761fe510d1398e38729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 087/101] fix: ComputeRationalCurveDerivatives refuses a
 negative order like the surface does

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 6b405d0..cc1584d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -377,6 +377,8 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurve(const LN_NurbsCurve& curve, double
 
 std::vector<LNLib::XYZ> LNLib::NurbsCurve::ComputeRationalCurveDerivatives(const LN_NurbsCurve& curve, int derivative, double paramT)
 {
+	VALIDATE_ARGUMENT(derivative > 0, "derivative", "derivative must be greater than zero.");
+
 	std::vector<LNLib::XYZ> derivatives(derivative + 1);
 	std::vector<XYZW> ders = BsplineCurve::ComputeDerivatives(curve, derivative, paramT);
 
-- 
2.43.0


From cfd0b51609e6f1af5d7c131735d30560c4f63b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:13 +0000
Subject: [PATCH 088/101] fix: GetParamOnSurfaceByGSA judges degenerate
 tangents relative to the derivatives and keeps its estimate

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a26dfba..5a27714 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1596,9 +1596,10 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double G = Sv.DotProduct(Sv);
 		double denominator = E * G - F * F;
 
-		if (MathUtils::IsAlmostEqualTo(denominator, 0.0))
+		// Relative to the lengths of the derivatives, which depend on the size of the domain.
+		if (denominator <= Constants::DoubleEpsilon * E * G)
 		{
-			return UV(Constants::DoubleEpsilon, Constants::DoubleEpsilon);
+			return initialUV;
 		}
 
 		double c1 = Su.DotProduct(normal);
-- 
2.43.0


From 2cc0a5e8d1119f11a1a86a18322e59f2b6f8c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 089/101] fix: Extend naturally starts its length iteration
 from a parameter step, so that it converges

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cc1584d..5be6a3f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3956,7 +3956,9 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 				return v;
 				};
 
-			double currentDeltaT = delta * directionSign;
+			// A parameter step, not a length: starting far away the iteration below may run out of steps.
+			double endSpeed = derivatives[1].Length();
+			double currentDeltaT = (MathUtils::IsAlmostEqualTo(endSpeed, 0.0) ? delta : delta / endSpeed) * directionSign;
 			const int maxIter = 50;
 			for (int i = 0; i < maxIter; ++i)
 			{
-- 
2.43.0


From dc7098ebbddb587e3741c7539a9f29e584d04386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:57 +0000
Subject: [PATCH 090/101] fix: surface Curvature judges degenerate tangents
 relative to the derivatives, not to the domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5a27714..4babfd1 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -284,7 +284,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	double G = Sv.DotProduct(Sv);
 
 	double denominator = E * G - F * F;
-	if (MathUtils::IsAlmostEqualTo(denominator, 0.0))
+	// Relative to the lengths of the derivatives, which depend on the size of the domain.
+	if (denominator <= Constants::DoubleEpsilon * E * G)
 	{
 		return 0.0;
 	}
-- 
2.43.0


From 1bd478d2c73a4a37e6778bf37477f0aa05315c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:26 +0000
Subject: [PATCH 091/101] fix: ToClampCurve keeps the curve when the end knots
 of its domain are already repeated

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 33 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5be6a3f..a16a485 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3541,22 +3541,39 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
 	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
 	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
+	LN_NurbsCurve tc = curve;
+	if (upMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, up, degree + 1 - upMulti, tc);
+	}
+	if (umpMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
+	}
 
 	std::vector<double> kv = tc.KnotVector;
 	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
+	// Knots outside the domain; the end knots may have been repeated before.
+	int before = 0;
+	while (!MathUtils::IsAlmostEqualTo(kv[before], up))
+	{
+		before++;
+	}
+	int after = 0;
+	while (!MathUtils::IsAlmostEqualTo(kv[kv.size() - 1 - after], ump))
+	{
+		after++;
+	}
+	knotVector.resize(kv.size() - before - after, 0.0);
 	controlPoints.resize(knotVector.size() - degree - 1);
 	for (int i = knotVector.size() - 1; i >= 0; i--)
 	{
-		knotVector[i] = kv[i + degree];
+		knotVector[i] = kv[i + before];
 		if (i < controlPoints.size())
 		{
-			controlPoints[i] = cps[i + degree];
+			controlPoints[i] = cps[i + before];
 		}
 	}
 
-- 
2.43.0


From 50303e7e9f716f364e396829b31d0a32aa436af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:53 +0000
Subject: [PATCH 092/101] fix: generateVoronoi lists an edge that meets no
 vertex only once

---
 src/LNLib/Algorithm/Voronoi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 7b67d4c..e2d4880 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -1134,6 +1134,10 @@ bool LNLib::VoronoiDiagramGenerator::voronoi(bool genVertexInfo)
 	{
 		e = lbnd->ELedge;
 
+		//a bisector that met no vertex is still in the list twice, once for each of its halves
+		if (lbnd->ELpm == re && e->ep[le] == NULL && e->ep[re] == NULL)
+			continue;
+
 		clip_line(e);
 	};
 
-- 
2.43.0


From d5087638a971035ca82066241c1c347967e5a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 093/101] fix: GetSurfaceMeshParameterization discards what its
 outputs held before

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index f9ebbe7..2f73d0e 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -274,8 +274,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From 6d77f227ce7e584074277f4fcc97377311aa2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:12 +0000
Subject: [PATCH 094/101] fix: GetAllParamsOnCurve finds points beside a corner
 and takes its last Newton step

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a16a485..c4a6dd1 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1491,7 +1491,24 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 
 		if (isLocalMin)
 		{
-			initialGuesses.push_back(std::max(minParam, std::min(maxParam, correspondingKnots[i])));
+			// Start from the nearest point of the two neighbouring chords: the sample itself may be the corner at a knot.
+			double guess = correspondingKnots[i];
+			double guessDistSq = distSq[i];
+			for (size_t j = i > 0 ? i - 1 : i; j <= i && j + 1 < tessellatedPoints.size(); ++j)
+			{
+				XYZ seg = tessellatedPoints[j + 1] - tessellatedPoints[j];
+				double segLenSq = seg.SqrLength();
+				if (!(segLenSq > 0.0)) continue;
+				double u = (givenPoint - tessellatedPoints[j]).DotProduct(seg) / segLenSq;
+				u = std::max(0.0, std::min(1.0, u));
+				double projectDistSq = (givenPoint - (tessellatedPoints[j] + seg * u)).SqrLength();
+				if (projectDistSq < guessDistSq)
+				{
+					guessDistSq = projectDistSq;
+					guess = correspondingKnots[j] + (correspondingKnots[j + 1] - correspondingKnots[j]) * u;
+				}
+			}
+			initialGuesses.push_back(std::max(minParam, std::min(maxParam, guess)));
 		}
 	}
 
@@ -1511,16 +1528,11 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			XYZ Ctt = derivatives[2];
 
 			XYZ diff = C - givenPoint;
-			double currentDist = diff.Length();
-
-			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-				break;
-			}
 
 			double f = Ct.DotProduct(diff);
 			double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(df), 0.0)) {
+			if (std::abs(df) <= Constants::DoubleEpsilon * Ct.DotProduct(Ct)) {
 				break;
 			}
 
-- 
2.43.0


From cd7494e7e160507b7ab3671dffc541ef84360c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 095/101] fix: include the container conversions in the
 bindings that exchange lists

---
 python/src/Construct/BezierCurve.cpp     | 1 +
 python/src/Construct/BezierSurface.cpp   | 1 +
 python/src/Construct/KnotVectorUtils.cpp | 1 +
 python/src/Construct/NurbsSurface.cpp    | 1 +
 python/src/Construct/Polynomials.cpp     | 1 +
 python/src/Construct/ValidationUtils.cpp | 1 +
 6 files changed, 6 insertions(+)

diff --git a/python/src/Construct/BezierCurve.cpp b/python/src/Construct/BezierCurve.cpp
index 686f563..4a9c6f9 100644
--- a/python/src/Construct/BezierCurve.cpp
+++ b/python/src/Construct/BezierCurve.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "LNObject.h"
 #include "BezierCurve.h"
 
diff --git a/python/src/Construct/BezierSurface.cpp b/python/src/Construct/BezierSurface.cpp
index ec39f9b..9d5587d 100644
--- a/python/src/Construct/BezierSurface.cpp
+++ b/python/src/Construct/BezierSurface.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "LNObject.h"
 #include "BezierSurface.h"
 
diff --git a/python/src/Construct/KnotVectorUtils.cpp b/python/src/Construct/KnotVectorUtils.cpp
index eb933e7..154d207 100644
--- a/python/src/Construct/KnotVectorUtils.cpp
+++ b/python/src/Construct/KnotVectorUtils.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "KnotVectorUtils.h"
 
 namespace py = pybind11;
diff --git a/python/src/Construct/NurbsSurface.cpp b/python/src/Construct/NurbsSurface.cpp
index e7399f4..5fa1c49 100644
--- a/python/src/Construct/NurbsSurface.cpp
+++ b/python/src/Construct/NurbsSurface.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "LNObject.h"
 #include "NurbsSurface.h"
 
diff --git a/python/src/Construct/Polynomials.cpp b/python/src/Construct/Polynomials.cpp
index 3590eed..7d69733 100644
--- a/python/src/Construct/Polynomials.cpp
+++ b/python/src/Construct/Polynomials.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "UV.h"
 #include "Polynomials.h"
 
diff --git a/python/src/Construct/ValidationUtils.cpp b/python/src/Construct/ValidationUtils.cpp
index 2bff023..50ae118 100644
--- a/python/src/Construct/ValidationUtils.cpp
+++ b/python/src/Construct/ValidationUtils.cpp
@@ -9,6 +9,7 @@
  */
 
 #include <pybind11/pybind11.h>
+#include <pybind11/stl.h>
 #include "ValidationUtils.h"
 
 namespace py = pybind11;
-- 
2.43.0


From 57235f6584feb1ece3a8a4659edbda62a40a9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 096/101] fix: bind the surface types the surface functions
 take and return

---
 python/src/Construct/LNObject.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/python/src/Construct/LNObject.cpp b/python/src/Construct/LNObject.cpp
index 2552993..097f27c 100644
--- a/python/src/Construct/LNObject.cpp
+++ b/python/src/Construct/LNObject.cpp
@@ -40,6 +40,34 @@ void cstrObject(py::module_&m)
         .def_readwrite("KnotVector", &LNLib::LN_BsplineCurve<LNLib::XYZW>::KnotVector)
         .def_readwrite("ControlPoints", &LNLib::LN_BsplineCurve<LNLib::XYZW>::ControlPoints);
 
+    py::class_<LNLib::LN_BezierSurface<LNLib::XYZ>>(m, "LN_BezierSurface_XYZ")
+        .def(py::init<>())
+        .def_readwrite("DegreeU", &LNLib::LN_BezierSurface<LNLib::XYZ>::DegreeU)
+        .def_readwrite("DegreeV", &LNLib::LN_BezierSurface<LNLib::XYZ>::DegreeV)
+        .def_readwrite("ControlPoints", &LNLib::LN_BezierSurface<LNLib::XYZ>::ControlPoints);
+
+    py::class_<LNLib::LN_BezierSurface<LNLib::XYZW>>(m, "LN_BezierSurface_XYZW")
+        .def(py::init<>())
+        .def_readwrite("DegreeU", &LNLib::LN_BezierSurface<LNLib::XYZW>::DegreeU)
+        .def_readwrite("DegreeV", &LNLib::LN_BezierSurface<LNLib::XYZW>::DegreeV)
+        .def_readwrite("ControlPoints", &LNLib::LN_BezierSurface<LNLib::XYZW>::ControlPoints);
+
+    py::class_<LNLib::LN_BsplineSurface<LNLib::XYZ>>(m, "LN_BsplineSurface_XYZ")
+        .def(py::init<>())
+        .def_readwrite("DegreeU", &LNLib::LN_BsplineSurface<LNLib::XYZ>::DegreeU)
+        .def_readwrite("DegreeV", &LNLib::LN_BsplineSurface<LNLib::XYZ>::DegreeV)
+        .def_readwrite("KnotVectorU", &LNLib::LN_BsplineSurface<LNLib::XYZ>::KnotVectorU)
+        .def_readwrite("KnotVectorV", &LNLib::LN_BsplineSurface<LNLib::XYZ>::KnotVectorV)
+        .def_readwrite("ControlPoints", &LNLib::LN_BsplineSurface<LNLib::XYZ>::ControlPoints);
+
+    py::class_<LNLib::LN_BsplineSurface<LNLib::XYZW>>(m, "LN_NurbsSurface", py::module_local())
+        .def(py::init<>())
+        .def_readwrite("DegreeU", &LNLib::LN_BsplineSurface<LNLib::XYZW>::DegreeU)
+        .def_readwrite("DegreeV", &LNLib::LN_BsplineSurface<LNLib::XYZW>::DegreeV)
+        .def_readwrite("KnotVectorU", &LNLib::LN_BsplineSurface<LNLib::XYZW>::KnotVectorU)
+        .def_readwrite("KnotVectorV", &LNLib::LN_BsplineSurface<LNLib::XYZW>::KnotVectorV)
+        .def_readwrite("ControlPoints", &LNLib::LN_BsplineSurface<LNLib::XYZW>::ControlPoints);
+
     py::class_<LNLib::LN_Mesh>(m, "LN_Mesh")
         .def(py::init<>())
         .def_readwrite("Vertices", &LNLib::LN_Mesh::Vertices)
-- 
2.43.0


From 6d020a318dc85feda3a675b7377f22c4c424649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 097/101] fix: RemoveKnotsByGivenBound binding passes one error
 per parameter

---
 python/src/Construct/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/Construct/NurbsCurve.cpp b/python/src/Construct/NurbsCurve.cpp
index 1426ac7..f99fc7b 100644
--- a/python/src/Construct/NurbsCurve.cpp
+++ b/python/src/Construct/NurbsCurve.cpp
@@ -166,7 +166,7 @@ void cstrNurbsCurve(py::module_&m)
         .def_static("ComputerRemoveKnotErrorBound", &LNLib::NurbsCurve::ComputerRemoveKnotErrorBound)
         .def_static("RemoveKnotsByGivenBound", [](const LNLib::LN_NurbsCurve& curve, const std::vector<double>& params, double maxError) {
         LNLib::LN_NurbsCurve result;
-        std::vector<double> errors;
+        std::vector<double> errors(params.size(), 0.0);
         LNLib::NurbsCurve::RemoveKnotsByGivenBound(curve, params, errors, maxError, result);
         return py::make_tuple(errors, result);
             })
-- 
2.43.0


From 415dc20a4a1ed2b3eed8d8cf705d8639003d60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 098/101] fix: SplitArc binding returns the weight it computes

---
 python/src/Construct/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/Construct/NurbsCurve.cpp b/python/src/Construct/NurbsCurve.cpp
index f99fc7b..358f339 100644
--- a/python/src/Construct/NurbsCurve.cpp
+++ b/python/src/Construct/NurbsCurve.cpp
@@ -131,7 +131,7 @@ void cstrNurbsCurve(py::module_&m)
         .def_static("SplitArc", [](const LNLib::XYZ& start, const LNLib::XYZ& projectPoint, double projectPointWeight, const LNLib::XYZ& end, double insertWeight) {
         LNLib::XYZ insertPointAtStartSide, splitPoint, insertPointAtEndSide;
         LNLib::NurbsCurve::SplitArc(start, projectPoint, projectPointWeight, end, insertPointAtStartSide, splitPoint, insertPointAtEndSide, insertWeight);
-        return py::make_tuple(insertPointAtStartSide, splitPoint, insertPointAtEndSide);
+        return py::make_tuple(insertPointAtStartSide, splitPoint, insertPointAtEndSide, insertWeight);
             })
         .def_static("CreateOpenConic", [](const LNLib::XYZ& start, const LNLib::XYZ& startTangent, const LNLib::XYZ& end, const LNLib::XYZ& endTangent, const LNLib::XYZ& pointOnConic) {
         LNLib::LN_NurbsCurve result;
-- 
2.43.0


From 9c222eeab34ee073f4a93d50a3c7299cbede52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 099/101] fix: bindings do not return uninitialised values when
 there is no intersection

---
 python/src/Construct/Intersection.cpp | 2 +-
 python/src/Construct/NurbsCurve.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/Construct/Intersection.cpp b/python/src/Construct/Intersection.cpp
index cf24ef0..8e955ed 100644
--- a/python/src/Construct/Intersection.cpp
+++ b/python/src/Construct/Intersection.cpp
@@ -17,7 +17,7 @@ void cstrIntersection(py::module_&m)
 {
     py::class_<LNLib::Intersection>(m, "Intersection")
         .def_static("ComputeRays", [](const LNLib::XYZ& point0, const LNLib::XYZ& vector0, const LNLib::XYZ& point1, const LNLib::XYZ& vector1) {
-        double param0, param1;
+        double param0 = 0.0, param1 = 0.0;
         LNLib::XYZ intersectPoint;
         LNLib::CurveCurveIntersectionType type = LNLib::Intersection::ComputeRays(point0, vector0, point1, vector1, param0, param1, intersectPoint);
         return py::make_tuple(type, param0, param1, intersectPoint);
diff --git a/python/src/Construct/NurbsCurve.cpp b/python/src/Construct/NurbsCurve.cpp
index 358f339..79348f0 100644
--- a/python/src/Construct/NurbsCurve.cpp
+++ b/python/src/Construct/NurbsCurve.cpp
@@ -124,7 +124,7 @@ void cstrNurbsCurve(py::module_&m)
             })
         .def_static("CreateOneConicArc", [](const LNLib::XYZ& start, const LNLib::XYZ& startTangent, const LNLib::XYZ& end, const LNLib::XYZ& endTangent, const LNLib::XYZ& pointOnConic) {
         LNLib::XYZ projectPoint;
-        double projectPointWeight;
+        double projectPointWeight = 0.0;
         bool ret = LNLib::NurbsCurve::CreateOneConicArc(start, startTangent, end, endTangent, pointOnConic, projectPoint, projectPointWeight);
         return py::make_tuple(ret, projectPoint, projectPointWeight);
             })
-- 
2.43.0


From 9d94fa7acb9cd6138eeab457f001fb7b38dfe3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:03 +0000
Subject: [PATCH 100/101] fix: include the point type whose lists the
 ValidationUtils binding takes

---
 python/src/Construct/ValidationUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/Construct/ValidationUtils.cpp b/python/src/Construct/ValidationUtils.cpp
index 50ae118..59dd9b4 100644
--- a/python/src/Construct/ValidationUtils.cpp
+++ b/python/src/Construct/ValidationUtils.cpp
@@ -10,6 +10,7 @@
 
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
+#include "XYZW.h"
 #include "ValidationUtils.h"
 
 namespace py = pybind11;
-- 
2.43.0


From d33ce1cbbceff4192d94c34c9054ad5f50521f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:14 +0000
Subject: [PATCH 101/101] fix: remove_knots_by_given_bound in the C interface
 passes one error per parameter

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 6b480ad..ea1ba49 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -195,7 +195,7 @@ void LNLIB_NURBSCUR_remove_knots_by_given_bound(LN_NurbsCurve_C curve, const dou
 {
 	std::vector<double> ps(params_count);
 	for (int i = 0; i < params_count; ++i) ps[i] = params[i];
-	std::vector<double> errs;
+	std::vector<double> errs(params_count, 0.0);
 	LN_NurbsCurve result;
 	NurbsCurve::RemoveKnotsByGivenBound(FromCAPI(curve), ps, errs, maxError, result);
 	for (size_t i = 0; i < errs.size(); ++i) {
-- 
2.43.0

