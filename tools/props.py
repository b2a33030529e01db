#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": ["inputs"], "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, _note=note))


C = "src/LNLib/Geometry/Curve/"
S = "src/LNLib/Geometry/Surface/"
VO = "src/LNLib/Geometry/Volume/"
A = "src/LNLib/Algorithm/"
I = "src/LNLib/include/"

prop("C01", "Basis functions equal their definition at every parameter and knot vector",
     "For every valid clamped knot vector, degree 1..7 and parameter in the domain, the knot span, knot multiplicity, B-spline basis functions of all lower degrees, their derivatives of every order (all-at-once, first-order and single-function routines), Bernstein polynomials and Horner evaluation equal their mathematical definitions. Basis functions are non-negative and sum to one, derivatives sum to zero, and the parameter at the right end belongs to the last non-empty span. The Bezier-to-power and power-to-Bezier matrices are exact and inverse to each other.",
     "every degree, knot vector (with repeated knots, any domain) and parameter, including knots and domain ends",
     "The tests evaluate a handful of fixed values on one quadratic knot vector; the claim ranges over all knot vectors, multiplicities, degrees and parameters.",
     [A + "Polynomials.cpp"], [("GetKnotSpanIndex, BasisFunctions, BasisFunctionsDerivatives, OneBasisFunction, AllBernstein", A + "Polynomials.cpp")],
     "Differential test against a long-double Cox-de Boor model on random knot vectors; tolerance 1e-11 on values.")
prop("C02", "Curve points equal the weighted basis combination, by every evaluation route",
     "For every valid NURBS, B-spline or Bezier curve and every parameter of its domain, the evaluated point equals the rational combination of control points defined by the basis functions, whichever route computes it (basis functions, corner cutting, Bernstein form, de Casteljau, quadratic arc formula). It therefore lies in the convex hull of the control points of its span, starts and ends at the end control points when clamped, and does not depend on an affine change of the knot vector.",
     "every curve (degree, knots, weights, control points) and every parameter",
     "The tests compare a few points of fixed curves; a wrong branch for repeated knots, end parameters, or unequal weights is not reached.",
     [I + "BsplineCurve.h", I + "BezierCurve.h", C + "NurbsCurve.cpp", C + "BezierCurve.cpp"], [("GetPointOnCurve, GetPointOnCurveByCornerCut, GetPointOnQuadraticArc", C)],
     "Differential test against the long-double reference model, plus hull and metamorphic domain laws.")
prop("C03", "Curve derivatives, curvature, torsion and frame are those of the curve",
     "For every valid curve, parameter and order, the returned derivatives (rational, B-spline, and via derivative control points) equal the true derivatives of the evaluated curve, and are zero beyond the degree for non-rational curves. Curvature, torsion, normal and binormal equal the Frenet formulas of those derivatives wherever the frame is defined, whatever the speed of the parametrisation; projection normals of an open curve are unit and perpendicular to the tangent; differentiability is reported exactly at non-corners.",
     "every curve, parameter, derivative order; every speed |C'| including exactly 1",
     "The tests check one or two derivatives of fixed curves; orders above the degree, derivatives at repeated knots, rational high orders and special speeds are untested.",
     [C + "NurbsCurve.cpp", I + "BsplineCurve.h"], [("ComputeRationalCurveDerivatives, Curvature, Torsion, Normal, ProjectNormal, CanComputeDerivative", C + "NurbsCurve.cpp")],
     "Differential test against Leibniz-rule derivatives of the long-double model with error-amplification tolerances.")
prop("C04", "Inserting or refining knots and Bezier decomposition never change the curve",
     "Inserting any interior knot any number of times, refining with any sorted list of interior knots, and splitting into Bezier segments leave the curve's point at every parameter unchanged. The resulting knot vector is the sorted union of old and inserted knots (reported count, never beyond full multiplicity), degree and size relations hold, refinement equals repeated insertion, and the decomposition has one segment per non-empty span.",
     "every curve and every insertion request (existing knots, repeated, beyond full multiplicity, at domain ends)",
     "The tests insert one knot into one curve and decompose one curve; interactions of multiplicity, position and weights are not reached.",
     [C + "NurbsCurve.cpp"], [("InsertKnot, RefineKnotVector, DecomposeToBeziers", C + "NurbsCurve.cpp")],
     "Result compared with the original at degree+2 parameters of each span (determines every polynomial piece) with the reference evaluator.")
prop("C05", "Removing a removable knot restores the curve; excess knots vanish harmlessly",
     "Removing a knot that had been inserted (any number of times, in total or in part) succeeds, lowers the multiplicity by the number of removed control points and leaves the curve unchanged; a full removal restores the original control points. Requests for knots that are absent or at the domain ends are refused, every success returns a well-formed curve that keeps the end points, and removing excessive knots reduces removable repeated knots to single ones without moving the curve by more than the library's distance tolerance: repeated knots that carry shape stay.",
     "every curve, interior knot, number of insertions and removals",
     "The tests remove one knot of one cubic; multi-step removals and partially removable knots are not covered.",
     [C + "NurbsCurve.cpp"], [("RemoveKnot, RemoveExcessiveKnots", C + "NurbsCurve.cpp")],
     "Round trip insert/remove against the reference evaluator; forced removal of non-removable knots is a known finding.")
prop("C06", "Degree elevation preserves the curve; degree reduction inverts it or refuses",
     "Elevating the degree by any amount gives a curve of that degree with every knot multiplicity raised by it and the same point at every parameter. Reducing a Bezier-shaped curve that was elevated succeeds and restores it; a successful reduction never deviates by more than the library's distance tolerance, a curve far from every lower-degree curve is refused, and so are non-Bezier curves and degree one.",
     "every curve, elevation amount, and perturbation size",
     "The tests elevate and reduce single fixed curves; repeated interior knots and tolerance decisions are untested.",
     [C + "NurbsCurve.cpp"], [("ElevateDegree, ReduceDegree", C + "NurbsCurve.cpp")],
     "Reference evaluator comparison on every span; reduction bounded by 1.2e-4 and by the Chebyshev lower bound.")
prop("C07", "Reparametrising, reversing or transforming a curve moves nothing else",
     "An affine reparametrisation maps the domain exactly onto the requested interval and leaves the trace unchanged: the point at t becomes the point at the image of t. A linear rational reparametrisation with positive determinant does the same through its formula (orientation-reversing coefficients are refused). Reversing maps t to a+b-t on the same domain and reversing twice restores the curve. Transforming by an affine matrix maps every point of the curve by that matrix and keeps degree, knots and weights.",
     "every curve and every target domain, set of coefficients or affine matrix",
     "The tests reparametrise and reverse single curves on [0,1]; domains, negative denominators and weights are not varied.",
     [C + "NurbsCurve.cpp", A + "KnotVectorUtils.cpp", "src/LNLib/Math/Matrix4d.cpp"], [("Reparametrize, Reverse, CreateTransformed", C + "NurbsCurve.cpp")],
     "Reference evaluation of result and original at degree+2 parameters of each span.")
prop("C08", "Splitting, extracting, merging, clamping and unclamping keep the curve",
     "Splitting a curve at any interior parameter (also exactly at a knot of any multiplicity) gives two clamped curves over the two halves of the domain that coincide with the original; the domain ends are refused. Extracting between two parameters gives the clamped piece over exactly that interval. Merging two curves that touch gives one curve on [0,1] whose halves are the two curves, elevating the degree where they differ; curves that do not touch are refused. Clamping an unclamped curve and unclamping a clamped one keep domain and points, and are inverse to each other.",
     "every curve, every parameter or pair of parameters, every pair of touching curves, every unclamped knot vector",
     "The tests split and merge a few fixed cubic curves; positions at repeated knots, unequal degrees and weights, and unclamped ends are not reached.",
     [C + "NurbsCurve.cpp"], [("SplitAt, Extract, Merge, ToClampCurve, ToUnclampCurve, IsClamp", C + "NurbsCurve.cpp")],
     "Reference evaluation of the parts against the original; unclamped inputs are generated with strictly increasing outer knots.")
prop("C09", "Lines, arcs, conics, Hermite curves and shape predicates are exact",
     "A created line runs from start to end; a created circular or elliptic arc starts and ends at its angles, lies on the circle or ellipse at every parameter and runs once through the requested sweep; a conic built from end points, end tangents and a point is the conic through them (also as a half ellipse with parallel tangents, and on the complementary arc); a cubic Hermite curve takes the given points and tangents at its chord-length parameters. Linear, closed, arc and periodic predicates hold for exactly the curves with that shape, whatever their degree, knots or weights.",
     "every centre, frame, pair of radii, sweep; every conic; every list of points and tangents; every curve tested by the predicates",
     "The tests build a few axis-aligned arcs; oblique frames, ellipses, small and full sweeps, and all conic weights are untested.",
     [C + "NurbsCurve.cpp", A + "Interpolation.cpp"], [("CreateLine, CreateArc, CreateOneConicArc, SplitArc, CreateOpenConic, CreateCubicHermite, IsClosed, IsLinear, IsArc, IsPeriodic", C + "NurbsCurve.cpp")],
     "Implicit equation of the shape evaluated at reference points of the result; predicates against shapes constructed to have or lack the property by a margin.")
prop("C16", "Extending a curve keeps it and continues it by the requested line or arc",
     "Extending a curve at its start or end by a positive length keeps the original curve as a part of the result. A tangent extension is the straight segment of that length along the end tangent, an arc extension is the arc of that length on the osculating circle, and a natural extension continues with the same degree along the Taylor polynomial of the curve at that end, with the far end of the domain unchanged and the requested length. A non-positive length returns the curve itself.",
     "every regular curve, both ends, every extension type and length",
     "The tests extend one curve; rational ends, start versus end, and long extensions are not varied.",
     [C + "NurbsCurve.cpp"], [("Extend", C + "NurbsCurve.cpp")],
     "Geometry of the added part against reference derivatives; extension length of the natural type judged where the speed varies mildly, because the library integrates it with few nodes.")
prop("C10", "Interpolating curves pass through their points and tangents",
     "A global interpolant of any degree takes every given point at its chord-length (or given) parameter, has one control point per point and averaged knots. With tangents, it also has the given tangents times the factor as first derivatives at those parameters (degree two and higher). Local cubic interpolation meets every point in order with the estimated tangent direction and a continuous first derivative, and is refused for fewer than five points. Chord-length and centripetal parameters, the averaged surface-mesh parameters, averaged and approximation knots, three-point (parabola) and five-point tangents and the conic weight equal their formulas, and are finite for collinear points and for a repeated point; the five-point tangents turn round when the points are reversed, also at a corner between straight runs.",
     "every list of points with distinct neighbours, degree, parameter list and tangents",
     "The tests interpolate a few fixed point lists and only compare single values; degrees, closed or collinear data and tangent conditions are not covered.",
     [C + "NurbsCurve.cpp", A + "Interpolation.cpp"], [("GlobalInterpolation, CubicLocalInterpolation", C + "NurbsCurve.cpp"), ("GetChordParameterization, AverageKnotVector, ComputeTangent, GetSurfaceMeshParameterization", A + "Interpolation.cpp")],
     "Reference evaluation at the data parameters; tolerance scaled by the size of the control points (ill-conditioned systems are discarded and counted).")
prop("C11", "Approximating curves are least-squares optimal and respect their error bounds",
     "A least-squares curve starts and ends at the end points, has the requested number of control points and minimises the squared distances at the data parameters; points of a spline in the chosen space are reproduced. The weighted and constrained version meets points and derivatives without weight exactly and minimises the weighted residual of the others. Approximation by error bound stays within the bound at every data parameter. Removing knots by a bound never moves a data parameter by more than the error it reports, keeps that error within the bound, and removes knots that can be removed without error. A successful conic or cubic segment fit passes within the bound of every point between its indices, and a conic or a space cubic is recovered from its own points.",
     "every point list, degree, number of control points, weights, constraint pattern and error bound",
     "The tests fit a few fixed lists and mostly check a return value; optimality, bounds at every point and index offsets are not checked.",
     [C + "NurbsCurve.cpp", A + "Interpolation.cpp"], [("LeastSquaresApproximation, WeightedAndContrainedLeastSquaresApproximation, RemoveKnotsByGivenBound, ComputerRemoveKnotErrorBound, GlobalApproximationByErrorBound, FitWithConic, FitWithCubic", C + "NurbsCurve.cpp")],
     "Normal equations (stationarity) in long double for optimality; distance of each point to the fitted segment by search; ill-conditioned systems are discarded and counted.")
prop("C12", "Curve length and parameters at given lengths agree with the true arc length",
     "For every regular curve and every integrator, the approximate length (whole or between two parameters) equals the true arc length within the integrator's accuracy; it is exact for lines and, except by Simpson's rule, for circular arcs and for control points that fold back on a line. (Simpson's rule may stop as soon as two successive estimates agree.) The parameter at a given length lies in the domain and cuts off that length; a longer request gives the end, no length gives the start. The parameters of equal pieces increase, every piece has the requested length and the rest is not longer, and the call ends for every length.",
     "every regular curve, integrator, parameter interval and length",
     "The tests measure one or two curves; knots where the speed jumps, weights, folding lines and symmetric sampling are not covered.",
     [C + "NurbsCurve.cpp", A + "Integrator.cpp"], [("ApproximateLength, GetParamOnCurve(length), GetParamsOnCurve", C + "NurbsCurve.cpp")],
     "Reference length by composite Gauss quadrature in long double on regular curves (x increases); tolerance per integrator and per variation of the speed.")
prop("C13", "Point inversion returns the nearest parameter, inside the domain",
     "The parameter returned for a point lies in the domain and its curve point is as close as the nearest point of the curve; a point of the curve is recovered within the distance tolerance, and a point beside a smooth curve gives the foot of the perpendicular. The list of all parameters is free of duplicates (the two ends of a closed curve count once), inside the domain, and contains every parameter of a multiple point and the parameter of the nearest point.",
     "every curve (corners, end points, self-intersections) and every point in space",
     "The tests invert a few points of one curve; iterations that leave the domain or run to a farther point are not reached.",
     [C + "NurbsCurve.cpp"], [("GetParamOnCurve(point), GetAllParamsOnCurve", C + "NurbsCurve.cpp")],
     "Dense search with the reference evaluator; constructed loops with two known parameters.")
prop("C14", "Tessellated points lie on the curve in order and their chords follow it",
     "The tessellation of a curve starts and ends at the curve's end points, contains the point of every knot, consists of curve points in order of the parameter, and between neighbours the curve stays within 1e-5 of the chord (as far as a parameter step of 1e-6 allows), also for point-symmetric pieces; a degree-one curve gives its vertices. The equal tessellation gives for every non-empty span equally spaced parameters that include both ends, and the curve points at them.",
     "every regular curve", "The tests count points of one curve.",
     [C + "NurbsCurve.cpp"], [("Tessellate, TessellateCore, EquallyTessellate", C + "NurbsCurve.cpp")],
     "Curves with increasing x are inverted through x by bisection in the reference model, so that order and deviation are decided exactly.")
prop("C15", "Shape modifications and offsets move the curve as requested and nothing else",
     "Repositioning a control point moves the curve point at the parameter by the given distance along the direction; modifying one weight (or two neighbouring weights) moves it by the distance along the line to the control point (or to the leg), all other control points and weights being kept; a control point without influence is refused. Warping displaces every control point by its shape value along the in-plane normal; flattening and bending between two knots move exactly the control points whose influence lies between them, onto the line or towards the bend circle, and leave the curve outside unchanged. Constraint-based modification changes points and derivatives by exactly the given amounts, also for rational curves, with the smallest change and fixed points kept. An offset curve of a convex planar curve starts and ends at the offset end points and stays at the offset distance (Piegl-Tiller closely, Tiller-Hanson roughly); offset zero is the curve itself.",
     "every curve, parameter, index, direction, distance, interval and set of constraints",
     "The tests call each modification once and check sizes or return values only.",
     [C + "NurbsCurve.cpp"], [("ControlPointReposition, WeightModification, NeighborWeightsModification, Warping, Flattening, Bending, ConstraintBasedModification, Offset", C + "NurbsCurve.cpp")],
     "Defining equation of each modification evaluated with the reference model; nearly singular requests are discarded and counted.")
prop("S01", "Surface points, derivatives and iso curves follow the tensor-product definition",
     "For every surface (polynomial or rational, unequal degrees, non-square nets, multiple knots, any domain) and every parameter pair, the point, the mixed partial derivatives of every order (zero beyond the degree in the polynomial case) and the first derivatives equal the rational tensor-product combination; B-spline and Bezier surface evaluation agree with it for every point type, derivative control nets define the derivative surfaces, and the iso curves lie on the surface with the surface's other knot vector. Parameters outside the domain are refused.",
     "every surface, parameter pair and derivative order",
     "The tests evaluate a few parameter pairs of square biquadratic nets.",
     [S + "NurbsSurface.cpp", I + "BsplineSurface.h", I + "BezierSurface.h", A + "Polynomials.cpp"], [("GetPointOnSurface, ComputeRationalSurfaceDerivatives, GetUIsoCurve, GetVIsoCurve", S + "NurbsSurface.cpp"), ("GetPointOnSurface, ComputeDerivatives, ComputeControlPointsOfDerivatives", I + "BsplineSurface.h")],
     "Reference model in long double with an error bound from the absolute values of the terms.")
prop("S02", "Surface normals and curvatures are those of differential geometry",
     "At every regular parameter pair the normal is the unit vector of Su x Sv, and the Gauss, mean, maximum, minimum, absolute and root-mean-square curvatures equal the values of the first and second fundamental forms; planes, cylinders and spheres give their known values.",
     "every surface and regular parameter pair", "The tests sample one or two surfaces at one point.",
     [S + "NurbsSurface.cpp"], [("Normal, Curvature", S + "NurbsSurface.cpp")],
     "Fundamental forms from the reference derivatives; nearly singular parametrisations are discarded and counted.")
prop("S03", "Inserting, refining or removing knots and Bezier patches keep the surface",
     "Inserting a knot (up to full multiplicity), refining either knot vector and decomposing into Bezier patches give valid surfaces with exactly the expected knots that agree with the original everywhere, patches in row order. Removing inserted knots restores the surface; whatever is removed, the result has consistent sizes, the same corners and only that many fewer knots, and nothing is removed where there is no interior knot.",
     "every surface, direction, knot and multiplicity", "The tests insert one knot into one surface per direction.",
     [S + "NurbsSurface.cpp"], [("InsertKnot, RefineKnotVector, DecomposeToBeziers, RemoveKnot", S + "NurbsSurface.cpp")],
     "Metamorphic: reference evaluation of argument and result at enough parameters to determine every polynomial piece.")
prop("S04", "Surface degree elevation keeps the surface; reduction inverts it or refuses",
     "Elevating the degree in either direction raises every knot multiplicity by the same number and does not move the surface. Reducing the degree undoes an elevation, never moves the surface by more than the tolerance when it succeeds, and is refused for surfaces that are not of Bezier form or of degree one.",
     "every surface, direction and number of elevations", "The tests elevate one surface once.",
     [S + "NurbsSurface.cpp"], [("ElevateDegree, ReduceDegree", S + "NurbsSurface.cpp")],
     "Metamorphic comparison with the reference evaluator; random perturbations of elevated nets around the tolerance.")
prop("S05", "Swapping, reversing and reparametrising a surface move no point",
     "Swapping exchanges the parameters (degrees, knots and net), reversing one or both directions maps the parameter to its mirror in the same domain and is undone by repetition, reparametrising maps both domains affinely onto the given ones, also when one is unchanged; degrees and the other direction are kept. A surface is reported closed in a direction exactly when its first and last row (or column) of control points coincide.",
     "every surface, direction and interval", "The tests cover one unit-domain surface.",
     [S + "NurbsSurface.cpp"], [("Swap, Reverse, Reparametrize, IsClosed", S + "NurbsSurface.cpp")],
     "Metamorphic comparison with the reference evaluator at mapped parameters.")
prop("S06", "Bilinear, cylindrical, ruled and revolved surfaces are exact",
     "A bilinear surface interpolates its corners bilinearly on the unit square; a cylinder has every point at the given radius, with the given start and end angle, direction of rotation and height, for any non-unit frame; a ruled surface contains both curves at the same parameter at its two ends and lies on the straight rulings between them, whatever their degrees and knots; every point of a revolved surface is its profile point turned about the axis, from zero to the given angle, monotonically, also for profiles that touch the axis and for axes that are not unit vectors. Non-uniform scaling scales the surface about the reference point along each axis.",
     "every set of corners, frame, angle, profile, pair of curves and scale factors",
     "The tests build one example of each and look at a few points.",
     [S + "NurbsSurface.cpp"], [("CreateBilinearSurface, CreateCylindricalSurface, CreateRuledSurface, CreateRevolvedSurface, NonUniformScaling", S + "NurbsSurface.cpp")],
     "Closed formulas of the shapes evaluated against the reference evaluator.")
prop("V01", "Volume points, derivatives, iso curves, inversion and checks are exact",
     "For every trivariate volume (unequal degrees and net sizes, multiple knots, any domain, weights) the point and the mixed partial derivatives of every order equal the rational tensor-product combination; iso curves have the knots of the free direction and lie in the volume; a volume is closed in a direction exactly when its first and last layers coincide; inverting a point gives parameters inside the domain, recovers points of the volume, and is otherwise as near as the search resolution allows; the Jacobian check accepts right-handed volumes and refuses mirrored or folded ones.",
     "every volume, parameter triple, direction and point",
     "No test of the repository touches volumes.",
     [VO + "NurbsVolume.cpp"], [("GetPointOnVolume, ComputeVolumeRationalDerivatives, GetIsoCurve, IsClosed, GetParamOnVolume, Check", VO + "NurbsVolume.cpp")],
     "Long-double reference model; boxes with perturbed nets for inversion and the Jacobian check.")
prop("V02", "Knot, degree, split, extract, reverse and swap operations keep the volume",
     "In each of the three directions: inserting or refining knots, elevating the degree, splitting, extracting an iso-parametric surface, reversing and swapping two directions (in either order) give valid objects with exactly the expected degrees and knots that agree with the original volume at corresponding parameters; the other directions are unchanged, and reversing twice is the identity.",
     "every volume, direction, knot and parameter", "No test of the repository touches volumes.",
     [VO + "NurbsVolume.cpp"], [("InsertKnot, RefineKnotVector, ElevateDegree, SplitAt, Extract, Reverse, Swap", VO + "NurbsVolume.cpp")],
     "Metamorphic comparison with the long-double reference evaluator on a grid that covers every span.")
prop("S10", "Surface inversion, tangent inversion and signed distance are right",
     "For every surface: inverting a point of the surface (interior, knot, edge or corner) returns a parameter inside the domain that maps back to the point; for any other point the returned parameter is as near as the surface comes (up to the search resolution where the surface has creases); asking for all parameters returns distinct in-domain parameters including the nearest ones, and both of them at a self-intersection; second-order inversion of points near a gently curved patch finds the foot point; tangent inversion returns the components of a vector in the first derivatives; the signed distance has the magnitude of the distance and the sign of the side of the normal.",
     "every surface and point", "Tests invert a few points of two surfaces.",
     [S + "NurbsSurface.cpp"], [("GetParamOnSurface, GetAllParamsOnSurface, GetParamOnSurfaceByGSA, GetUVTangent, ComputeSignedDistanceFunction", S + "NurbsSurface.cpp")],
     "Round trip through the reference evaluator; for free points an independent grid and pattern search bounds the distance from above.")
prop("S11", "Surface boxes, tessellations and triangulations are complete and on the surface",
     "For every surface: the oriented box has orthonormal axes, contains every control point and surface point and is tight on its axes; the axis-aligned box lies in the box of the control points and contains the surface points at all knot pairs; the equal tessellation is the full grid of 100 intervals per span including the last lines, each point on the surface at its parameters; the grid triangulation covers the knot domain exactly once with consistently oriented triangles, right UVs and valid indices; the Delaunay triangulation has all vertices on the surface, includes the sampling grid, and its triangles tile the parameter rectangle without gaps or overlaps, also for closed surfaces.",
     "every surface and resolution", "Tests look at one surface and at whether there are any faces.",
     [S + "NurbsSurface.cpp", A + "Voronoi.cpp"], [("GetBoundingBox, GetOrientedBoundingBox, EquallyTessellate, Triangulate", S + "NurbsSurface.cpp"), ("Delaunay triangles", A + "Voronoi.cpp")],
     "Reference evaluator; coverage by area sum and by counting the triangles over random probe points of height fields with affine x and y.")
prop("U02", "Voronoi diagrams and Delaunay triangulations of plane sites are right",
     "For sites in general position, on grids, with collinear runs and clustered: the triangles tile the convex hull (areas add up), refer to existing sites and have no site inside their circumcircle; every point of a Voronoi edge has its two nearest sites at the same distance and lies within the given border; no Voronoi edge is missing (the lengths inside the border add up) and sites that share an edge have a Delaunay edge; vertices and vertex pairs are those of the edges; one, two or collinear sites are handled without triangles of non-zero area; a generator that is used again returns only the new diagram.",
     "every set of sites that single precision can tell apart", "Tests use the generator once, through Triangulate, and look only at whether there are faces.",
     [A + "Voronoi.cpp", I + "Voronoi.h"], [("Fortune sweep", A + "Voronoi.cpp")],
     "Sites lie on a 1/256 lattice so that degeneracy is exact or clear; empty-circle, hull-area and equidistance oracles in long double.")
prop("U01", "Octree searches return exactly the points a full scan returns",
     "For every point set (repeated, collinear, lattice, clustered points; any scale), leaf size and minimum extent the tree holds each point in exactly one leaf inside its cell, leaves respect the leaf size or minimum extent; for every query both radius searches return exactly the points within the radius, and the k-nearest search returns min(k, n) neighbours, the worst at the k-th smallest distance; cell-ball predicates agree with exact geometry; an empty tree finds nothing.",
     "every point set, query, radius and k", "No test of the repository touches the octree.",
     [A + "Octree/Octree.cpp", A + "Octree/OctreeCollector.cpp"], [("OctreeConstruction, OctreeRadiusSearch, OctreeRadiusSearchFast, OctreeKnnSearch", A + "Octree/Octree.cpp"), ("result sets", A + "Octree/OctreeCollector.cpp")],
     "Brute-force scan in long double as the reference; only distances within 2.5e-6 of the radius are left undecided.")
prop("U03", "Knot vector utilities give exact multiplicities and common refinements",
     "For every clamped knot vector: GetContinuity at a knot is the degree minus the multiplicity; the multiplicity maps count every (internal) knot; Rescale is the affine map of the domain that keeps ends, order and multiplicities; the elements GetInsertedKnotElement(s) returns for two or more vectors turn each of them into the union with maximal multiplicities, no more and no less; the midpoint form inserts the requested number of knots, each halving a longest span; the subrange form brings both parameters to multiplicity degree+1; IsUniform holds exactly for equal gaps, equal interior and equal end multiplicities; the size rules for Bezier, B-spline and NURBS data and the modification tolerance follow their definitions.",
     "every clamped knot vector, family of vectors, subrange and size", "Tests use three hand-made vectors; the subrange form, the maps and Rescale are not tested.",
     [A + "KnotVectorUtils.cpp", A + "ValidationUtils.cpp", A + "Polynomials.cpp"], [("refinement elements and multiplicities", A + "KnotVectorUtils.cpp"), ("size rules", A + "ValidationUtils.cpp")],
     "Counting maps in the harness are the reference; spans after midpoint insertion are compared with a greedy bisection model.")
prop("U04", "4x4 matrices compose, transform, invert and classify as the algebra says",
     "For all matrices: product, sum, difference, transpose and determinant are those of linear algebra and leave the operands alone; OfPoint, OfVector and OfWeightedPoint apply the (projective) map, keeping the weight; bases read back as set; rotations follow Rodrigues' formula about the axis (through the given point), reflections mirror in the plane n.x + d = 0, scalings and translations act per axis; a product applies its factors right to left; GetInverse inverts every well-conditioned matrix and reports singular ones; GetScale, HasReflection, IsIdentity and IsTranslation hold exactly when the elements say so.",
     "every matrix, axis, angle, point and weight", "Tests of the repository only rotate one vector and never look at inverse, reflection or predicates in combination.",
     ["src/LNLib/Mathematics/Math/Matrix4d.cpp", "src/LNLib/Mathematics/Utils/MathUtils.cpp"], [("matrix algebra and constructors", "src/LNLib/Mathematics/Math/Matrix4d.cpp"), ("MakeInverse, GetDeterminant", "src/LNLib/Mathematics/Utils/MathUtils.cpp")],
     "Long-double matrix algebra, cofactor inverse and Rodrigues' formula in the harness as references.")
prop("U05", "Tolerant comparisons and linear algebra helpers meet their definitions",
     "IsAlmostEqualTo, IsGreaterThan, IsGreaterThanOrEqual, IsLessThan and IsLessThanOrEqual are one consistent ordering with the relative band tol*(1+max|a|,|b|): exactly one of equal, greater and less holds, the 'or equal' forms are their unions, infinities compare exactly, NaN compares false; Binomial, Factorial and the angle conversions are exact; matrix product, transpose, column, identity and zero matrices, determinant and inverse agree with linear algebra and singular or non-square input is refused; SolveLinearSystem solves square systems and gives the least-squares solution of taller ones; the banded solver solves every diagonally dominant banded system and refuses a singular one; ComputeOBBAxes returns orthonormal axes that decorrelate the points.",
     "every pair of numbers and tolerance, every well-conditioned or exactly singular matrix", "Tests of the repository call these helpers on two or three values each; every geometric decision of the library goes through the comparisons.",
     ["src/LNLib/Mathematics/Utils/MathUtils.cpp", I + "MathUtils.h"], [("comparisons, linear systems", "src/LNLib/Mathematics/Utils/MathUtils.cpp")],
     "Long-double definitions and residuals as references; numbers within 1e-9 relative of the tolerance boundary are left undecided.")
prop("U06", "Quadrature rules integrate and the cubic solver returns a root",
     "Simpson's rule is exact for cubics and, in two variables, for bicubics; the Gauss-Legendre tables integrate every polynomial up to degree 47 over [-1,1]; Clenshaw-Curtis quadrature over a Chebyshev series of any length integrates polynomials, exponentials, sines, reciprocals and roots of quadratics on any interval within its tolerance (1e-4 relative to the size of the integrand), samples only inside the interval, hands over the custom data, is reversed by reversing the interval, and leaves the series usable for the next integral; ComputerCubicEquationsWithOneVariable returns a real root of every cubic, and of linear and quadratic equations that have one.",
     "every integrand of these families, interval, series length and set of coefficients", "The tests see the quadratures only through a few lengths and areas; the cubic solver has no test.",
     [A + "Integrator.cpp", I + "FFT.h", "src/LNLib/Mathematics/Utils/MathUtils.cpp"], [("Simpson, Gauss-Legendre tables, Clenshaw-Curtis", A + "Integrator.cpp"), ("ComputerCubicEquationsWithOneVariable", "src/LNLib/Mathematics/Utils/MathUtils.cpp")],
     "Antiderivatives in long double as references; roots are judged by the value of the polynomial.")
prop("U07", "XYZ, UV, UVW and XYZW obey vector algebra, with or without weights",
     "For all vectors: sums, differences, scalings, dot and cross products (operators and named methods alike), length, squared length, distance, angle, normalisation, negation and component access agree with vector algebra in three, two and homogeneous dimensions; compound assignments equal their plain forms; IsZero, IsUnit and IsAlmostEqualTo hold exactly within their tolerance; CreateRandomOrthogonal returns a unit vector orthogonal to every non-zero vector; XYZW(XYZ, w) multiplies by the weight, ToXYZ(true) divides it out, SetW keeps the point, and equality of weighted points ignores the weight.",
     "every pair of vectors, scalar and weight", "Tests of the repository check a handful of integer vectors.",
     ["src/LNLib/Mathematics/Math/XYZ.cpp", "src/LNLib/Mathematics/Math/UV.cpp", "src/LNLib/Mathematics/Math/UVW.cpp", "src/LNLib/Mathematics/Math/XYZW.cpp"], [("vector classes", "src/LNLib/Mathematics/Math/XYZ.cpp"), ("homogeneous points", "src/LNLib/Mathematics/Math/XYZW.cpp")],
     "Long-double vector algebra as the reference.")
prop("U08", "Line, plane and point projections classify and locate exactly",
     "For all lines: ComputeRays reports intersecting, skew, parallel or coincident correctly, with the parameters and the point of closest approach on the first line; ComputeLineAndPlane reports crossing, parallel or contained, and the point it returns lies on both; PointToRay is the foot of the perpendicular; PointToLine returns the foot exactly when it lies on the segment (ends included) and refuses an empty segment; Stereographic projects along the ray from the pole (0,0,2r) to the plane z = 0.",
     "every pair of lines, line and plane, point and segment", "Tests of the repository check one or two axis-aligned configurations per function.",
     [A + "Intersection.cpp", A + "Projection.cpp"], [("ComputeRays, ComputeLineAndPlane", A + "Intersection.cpp"), ("PointToRay, PointToLine, Stereographic", A + "Projection.cpp")],
     "Configurations are built from the answer; angles below 0.05 and gaps below 0.01 are not generated because the classification is tolerance based.")
prop("S08", "Surfaces fitted to a grid of points interpolate or best-approximate it",
     "For a grid of points with rows along u and columns along v, global interpolation of any degrees returns a valid surface over the averaged chord-length parameters (lines of zero length not counted) and averaged knots that takes the value of each point at its pair of parameters; bicubic local interpolation passes through every point at the knots (placed at the chord lengths averaged over the grid), with continuous first derivatives that are the estimated tangents there and the Bessel estimate as mixed derivative, and keeps plane grids in their plane and affine grids affine; global approximation with a given net returns exactly the least-squares fit in both directions with the four corners interpolated. The numbers of rows and columns may differ.",
     "every grid of points, pair of degrees and net size",
     "The tests fit two square grids and only check that the result is structurally valid.",
     [S + "NurbsSurface.cpp", A + "Interpolation.cpp", C + "NurbsCurve.cpp"], [("GlobalInterpolation, BicubicLocalInterpolation, GlobalApproximation", S + "NurbsSurface.cpp"), ("GetSurfaceMeshParameterization, AverageKnotVector, ComputeKnotVector", A + "Interpolation.cpp"), ("LeastSquaresApproximation", C + "NurbsCurve.cpp")],
     "Independent parameters and knots; evaluation of the interpolation conditions; dense long-double normal equations for the approximation.")
prop("S07", "Loft, Coons and Gordon surfaces contain the curves they are built from",
     "A loft contains every section curve, over the domain of the first, whatever the degrees, knots, domains and weights of the sections; with given section parameters each section lies at its parameter. A Coons surface of four curves joined end to end has exactly these curves as its boundaries and equals the bilinearly blended Coons patch; curves that do not join are refused. A Gordon surface of a network of non-rational curves that cross at even parameters contains all curves of both families. All results are structurally valid surfaces on the expected domain.",
     "every list of sections, loop of boundary curves and curve network",
     "The tests loft three equal arcs, look at the four corners of one Coons surface and never build a Gordon surface.",
     [S + "NurbsSurface.cpp", A + "KnotVectorUtils.cpp"], [("CreateLoftSurface, CreateCoonsSurface, CreateGordonSurface", S + "NurbsSurface.cpp"), ("GetInsertedKnotElements", A + "KnotVectorUtils.cpp")],
     "Reference evaluation of surface and curves; the parameter of interior sections of a default loft is found by search.")
prop("S09", "Surface area agrees with the true area for every integrator",
     "ApproximateArea by Gauss-Legendre, Simpson and Chebyshev integration agrees with the area of the surface within the accuracy of the method (Gauss-Legendre 1e-6 relative on mild polynomial sheets, the adaptive methods per mille to per cent), including surfaces with multiple knots and weights, parallelograms, triangles with a collapsed edge or a flat corner, cylinders, cones and spheres; it always ends, never returns NaN, does not change under swapping, reversing, reparametrising, inserting knots or elevating degrees, and scales with the square of the size.",
     "every surface and integrator",
     "The tests integrate one surface per integrator and a sphere.",
     [S + "NurbsSurface.cpp", A + "Integrator.cpp"], [("ApproximateArea, AreaCoreFunction, AreaWrapperFunction", S + "NurbsSurface.cpp"), ("Simpson, ClenshawCurtisQuadrature2, Gauss-Legendre nodes", A + "Integrator.cpp")],
     "Composite long-double Gauss quadrature of |Su x Sv| from the reference model and closed formulas.")
prop("S12", "Swept and swung surfaces carry the profile along the trajectory as defined",
     "A generalized translational sweep is exactly profile(u) + trajectory(v), a swung surface exactly (scale Px(u) Tx(v), scale Px(u) Ty(v), Pz(u)), with the degrees and knots of the two curves, weights included. A sweep through sections keeps the profile's degree and knots, has at least the requested number of sections and, at each section position (both ends; control point parameters of the trajectory, or equal arc lengths for the variant with a given degree), shows the plane profile moved rigidly with its origin on the trajectory and its plane perpendicular to the tangent; along a line it moves straight. ProjectNormal gives one unit normal per knot, perpendicular to the tangent there, each the projection of the one before, and closing up on smoothly closed curves.",
     "every profile and regular trajectory (open, straight, closed), number of sections and degree",
     "The tests sweep one circle along one line and look at the area, and take the normals of one half circle.",
     [S + "NurbsSurface.cpp", C + "NurbsCurve.cpp"], [("CreateGeneralizedTranslationalSweepSurface, CreateSweepSurface, CreateSwungSurface", S + "NurbsSurface.cpp"), ("ProjectNormal", C + "NurbsCurve.cpp")],
     "The rotation of the section around the tangent is free (random in the library), so congruence is judged by inner and cross products.")
prop("B01", "The C interface returns exactly what the C++ interface computes",
     "Every exported function of the C interface (dotnet/CAPI) gives, for every input, bit for bit the result of the C++ function it stands for: same values, same objects (degree, knots, control points, in the same order), same counts, same yes/no answers, and it refuses exactly the inputs the C++ function refuses. Arguments are handed over in the right order and row-major layout; functions with a capacity never write past it; several objects returned by one call (the parts of a split, the pieces of a decomposition) are all valid together until the next call.",
     "every call of the C interface with every valid input",
     "The repository has no test of the C interface at all; it is not even part of the test build.",
     ["dotnet/CAPI/src/NurbsCurve_CAPI.cpp", "dotnet/CAPI/src/NurbsSurface_CAPI.cpp", "dotnet/CAPI/include/NurbsCurve_CAPI.h"], [("curve functions", "dotnet/CAPI/src/NurbsCurve_CAPI.cpp"), ("surface functions", "dotnet/CAPI/src/NurbsSurface_CAPI.cpp"), ("value types, knots, polynomials, interpolation", "dotnet/CAPI/src/Polynomials_CAPI.cpp")],
     "Differential: the C call against the C++ call on the same generated input, with conversions written in the harness.")
prop("U09", "The fast transforms equal their defining sums and invert each other",
     "For every data vector whose length is a power of two, the complex and real discrete Fourier transforms, the discrete cosine and sine transforms in both directions and the symmetric cosine and sine transforms return the sums of their definitions, in the documented layout, and the documented inverse restores the data.",
     "every data vector of every admissible length", "No test calls the transforms; one is used inside the Clenshaw-Curtis rule.",
     [I + "FFT.h"], [("cdft, rdft, ddct, ddst, dfct, dfst", I + "FFT.h")],
     "Direct summation in long double; tolerance scales with the sum of the magnitudes.")
prop("U10", "Control nets convert and multiply like matrices; conic arcs split smoothly",
     "Converting weighted points to space divides by the weight point by point, converting back gives weight one, and nets multiply with matrices from either side as matrices do, whatever their shape. Boxes intersect exactly when they share a point. SplitArc cuts a conic arc with end weights one at its shoulder point into two arcs with end weights one that trace the same conic. The middle control points for a rational quadratic piece leave the start and reach the end along the given tangents with positive weights: one point when the tangents meet properly or the piece is straight, three points forming two smoothly joined arcs otherwise.",
     "every net, matrix, box pair, conic arc and pair of end tangents", "The tests do not call these functions directly.",
     [A + "ControlPointsUtils.cpp", I + "LNObject.h", C + "NurbsCurve.cpp", C + "BezierCurve.cpp"], [("ToXYZ, ToXYZW, Multiply", A + "ControlPointsUtils.cpp"), ("SplitArc", C + "NurbsCurve.cpp"), ("ComputerMiddleControlPointsOnQuadraticCurve", C + "BezierCurve.cpp")],
     "Independent long-double arithmetic, the implicit equation of the conic and tangency conditions.")

prop("A01", "A call with one invalid argument is refused, a well-formed call is not",
     "Every argument rule stated by the interface is enforced for every input: a malformed Bezier, B-spline or NURBS curve or surface (degree, number or order of knots, number of points, rows or columns) is refused by Check, and a call in which exactly one argument breaks a rule (parameter outside the domain by more than 1e-6, degree or derivative order or repeat count out of range, index out of range, zero direction, axis, distance or scale, empty or mismatched list, reversed or empty range, singular reparametrisation) ends in std::invalid_argument or std::out_of_range - never in a result, a crash or another error. The same call with that argument in order is carried out without an exception.",
     "every well-formed call of the curve, surface, polynomial and knot vector interface and every way of making one argument invalid, with arbitrary amounts of violation",
     "The tests only ever make valid calls; a rule that is dropped, weakened to one side of a range, or tested on the wrong argument is invisible to them.",
     [C + "NurbsCurve.cpp", S + "NurbsSurface.cpp", A + "Polynomials.cpp", I + "BsplineCurve.h", I + "BsplineSurface.h", I + "BezierCurve.h", I + "BezierSurface.h", A + "KnotVectorUtils.cpp", A + "ValidationUtils.cpp"], [("VALIDATE_ARGUMENT, VALIDATE_ARGUMENT_RANGE, Check", I + "LNLibExceptions.h")],
     "Generated well-formed calls and single-argument corruptions of them under the address and undefined-behaviour sanitizers; oracle: which exception, if any, leaves the call.")
prop("A02", "A result depends on the arguments alone, and inputs are left as they were",
     "For every call of the public C++ API that computes curves, surfaces, volumes, points or numbers: the result is the same bit for bit however often the call is made, whatever calls were made before, whatever the output curve, surface, volume or number held before the call, whatever left-over memory held, and whether or not other threads call the library at the same time on their own outputs; and the input arguments are unchanged afterwards. (A std::vector handed out by reference may be appended to, and the calls that pick a random perpendicular direction are excepted.)",
     "All call histories, output contents, thread schedules and arguments.",
     "A test calls each function once, single-threaded, with a fresh output object; state kept between calls, outputs that are not overwritten completely and reads of uninitialised memory never show there.",
     [C + "NurbsCurve.cpp", S + "NurbsSurface.cpp", VO + "NurbsVolume.cpp", A + "Interpolation.cpp", A + "Voronoi.cpp"],
     [("static member functions without state; every one writes its result through an output reference or by value", C + "NurbsCurve.cpp"), ("GetSurfaceMeshParameterization accumulates into its outputs", A + "Interpolation.cpp")],
     "Each generated case makes six random calls under four circumstances and compares the results bit for bit.")

prop("B02", "The Python interface returns exactly what the C++ interface computes",
     "Importing the module succeeds, and every function, method, operator, property, field and enumeration member of the Python bindings (python/src) gives, for every input, exactly the value of its C++ counterpart: arguments (lists, registered classes, enumerations, numbers) are converted and handed over in the right order, omitted arguments take the C++ defaults, the overload taken is the one whose parameters fit, output parameters come back in the documented tuple in their C++ order, assigning a field changes that field only, and a call is refused exactly when the C++ call is - never because a type of the interface has no Python counterpart.",
     "every bound function and object with every valid input",
     "The bindings are not part of the build or of the tests.",
     ["python/src/PyLNLib.cpp", "python/src/Construct/NurbsCurve.cpp", "python/src/Construct/NurbsSurface.cpp", "python/src/Construct/LNObject.cpp"], [("curve bindings", "python/src/Construct/NurbsCurve.cpp"), ("surface bindings", "python/src/Construct/NurbsSurface.cpp"), ("objects", "python/src/Construct/LNObject.cpp"), ("value types", "python/src/Construct/XYZ.cpp")],
     "pybind11 is not installed: the unmodified binding sources are compiled against a stand-in (harness/shim) that models registration, conversion, overload resolution and default arguments; each bound call is compared with the C++ call on the same generated input.")




#MORE


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -c \"import sys; print('checks build from /repo on their own')\"",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "technique": "property-based testing: seeded random generation with shrinking against a reference oracle; thorough adds coverage-guided fuzzing (libFuzzer) of the same laws",
                     "level": "exploration", "level_note": p["_note"] + " Sampling, not proof: assurance is bounded by the generator ranges and case counts in the evidence."} for p in P],
         "not_applicable": [], "notes": "Each check compiles /repo/src/LNLib with AddressSanitizer, UBSan and libstdc++ assertions together with harness/props/<ID>.cpp. No hooks in /repo are needed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
