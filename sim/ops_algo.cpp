#include "harness.h"
#include "BezierCurve.h"
#include "BsplineCurve.h"
#include "NurbsCurve.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "ControlPointsUtils.h"
#include "ValidationUtils.h"
#include "MathUtils.h"
#include "Integrator.h"
#include "Constants.h"
using namespace LNLib;
namespace sim {
#define A GR_ALGO
#define M GR_MATH
#define C GR_CURVE
typedef std::vector<XYZ> VP; typedef std::vector<double> VD; typedef std::vector<VD> VVD; typedef LN_NurbsCurve NC; typedef std::vector<XYZW> VW;
static VD kv(G& g, int& p) { p = g.ival(1, 5); int n = p + 1 + g.pick(6); return g.knots(p, n); }
static int spanOf(const VD& U, int p, double t) { int n = (int)U.size() - p - 2; if (t >= U[n + 1]) { int i = n; while (i > p && U[i] >= U[n + 1]) i--; return i; } int i = p; while (i < n && t >= U[i + 1]) i++; return i; }

// ---- Bezier / B-spline curve templates
static LN_BezierCurve<XYZ> bez(G& g, bool check = false) { LN_BezierCurve<XYZ> c; c.Degree = g.ival(1, 6); c.ControlPoints = g.points(c.Degree + 1); if (check && g.badNow(0.4)) c.ControlPoints.pop_back(); return c; }
static LN_BezierCurve<XYZW> bezw(G& g) { LN_BezierCurve<XYZW> c; c.Degree = g.ival(1, 6); for (auto& p : g.points(c.Degree + 1)) c.ControlPoints.push_back(XYZW(p, g.real(0.5, 2))); return c; }
OP(bez_check, C | GR_ALGO) { auto c = bez(g, true); VOIDCALL(BezierCurve::Check(c)); }
OP(bez_bern, C | GR_ALGO) { auto c = bez(g); double t = g.badNow() ? 1.5 : g.real(0, 1); RET(XYZ, BezierCurve::GetPointOnCurveByBernstein(c, t)); }
OP(bez_bernw, C | GR_ALGO) { auto c = bezw(g); double t = g.real(0, 1); RET(XYZW, BezierCurve::GetPointOnCurveByBernstein(c, t)); }
OP(bez_dc, C | GR_ALGO) { auto c = bez(g); double t = g.badNow() ? -0.5 : g.real(0, 1); RET(XYZ, BezierCurve::GetPointOnCurveByDeCasteljau(c, t)); }
OP(bez_dcw, C | GR_ALGO) { auto c = bezw(g); double t = g.real(0, 1); RET(XYZW, BezierCurve::GetPointOnCurveByDeCasteljau(c, t)); }
OP(bez_arc, C | GR_ALGO) { XYZW a(g.pt(3), 1), b(g.pt(3), g.real(0.3, 1.5)), c(g.pt(3), 1); double t = g.real(0, 1); RET(XYZ, BezierCurve::GetPointOnQuadraticArc(a, b, c, t)); }
OP(bez_middle, C | GR_ALGO) { XYZ a = g.pt(3), c = g.pt(3), ta = g.dir(), tc = g.chance(0.25) ? ta : g.dir(); if (g.flag()) { a.SetZ(0); c.SetZ(0); ta = XYZ(g.real(0.2, 1), g.real(0.2, 1), 0); tc = XYZ(g.real(0.2, 1), g.real(-1, -0.2), 0); } int k = g.pick(8); if (k < 4) { XYZ ch = (c - a).Normalize(); if (k == 0) ta = tc = ch; else if (k == 1) { ta = ch; tc = ch.Negative(); } else if (k == 2) tc = ch; else { ta = ch; } } OUTB(VW, BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(a, ta, c, tc, r)); }
OP(bsp_check, C) { auto c = g.curve(); VOIDCALL(BsplineCurve::Check(c)); }
OP(bsp_point, C) { auto c = g.curve(); double t = g.param(c.KnotVector); RET(XYZW, BsplineCurve::GetPointOnCurve(c, t)); }
OP(bsp_derivs, C) { auto c = g.curve(); double t = g.param(c.KnotVector); int n = g.ival(1, 4); RET(VW, BsplineCurve::ComputeDerivatives(c, n, t)); }
OP(bsp_ctrl, C) { auto c = g.curve(1, 5); int n = g.ival(1, c.Degree); RET(std::vector<VW>, BsplineCurve::ComputeControlPointsOfDerivatives(c, n, 0, (int)c.ControlPoints.size() - 1)); }
OP(bsp_all, C) { auto c = g.curve(1, 5); double t = g.param(c.KnotVector); int n = g.ival(1, 3); RET(VW, BsplineCurve::ComputeDerivativesByAllBasisFunctions(c, n, t)); }
OP(bsp_xyz, C) { auto c0 = g.curve(); LN_BsplineCurve<XYZ> c; c.Degree = c0.Degree; c.KnotVector = c0.KnotVector; for (auto& p : c0.ControlPoints) c.ControlPoints.push_back(p.ToXYZ(true)); double t = g.param(c.KnotVector); int n = g.ival(1, 3); return [=](D& d) { XYZ a; VP b; if (d.call([&] { a = BsplineCurve::GetPointOnCurve(c, t); })) d << a; if (d.call([&] { b = BsplineCurve::ComputeDerivatives(c, n, t); })) { d.hold(); d << b; } }; }

// ---- polynomials
OP(poly_horner, A) { int p = g.ival(0, 6); VD c = g.reals(p + 1, -3, 3); double t = g.real(-2, 2); RET(double, Polynomials::Horner(p, c, t)); }
OP(poly_bern, A) { int p = g.ival(0, 7); int i = g.ival(-1, p + 1); double t = g.real(0, 1); RET(double, Polynomials::Bernstein(i, p, t)); }
OP(poly_allbern, A) { int p = g.ival(0, 7); double t = g.real(0, 1); RET(VD, Polynomials::AllBernstein(p, t)); }
OP(poly_horneruv, A) { int p = g.ival(1, 4), q = g.ival(1, 4); VVD c = g.mat(p + 1, q + 1); double a = g.badNow() ? 1.5 : g.real(0, 1), b = g.badNow() ? -0.5 : g.real(0, 1); return [=](D& d) { double r = 0; UV uv(a, b); if (d.call([&] { r = Polynomials::Horner(p, q, c, uv); })) { d.hold(); d << r << uv; } }; }
OP(poly_mult, A) { int p; VD U = kv(g, p); double t = g.param(U); RET(int, Polynomials::GetKnotMultiplicity(U, t)); }
OP(poly_span, A) { int p; VD U = kv(g, p); double t = g.param(U); RET(int, Polynomials::GetKnotSpanIndex(p, U, t)); }
OP(poly_basis, A) { int p; VD U = kv(g, p); double t = g.param(U); int s = spanOf(U, p, t); return [=](D& d) { double N[Constants::NURBSMaxDegree + 1]; for (double& x : N) x = 0; d.dirtyArr(N, Constants::NURBSMaxDegree + 1); if (d.call([&] { Polynomials::BasisFunctions(s, p, U, t, N); })) { d.hold(); for (int i = 0; i <= p; i++) d << N[i]; } }; }
OP(poly_basisder, A) { int p; VD U = kv(g, p); double t = g.inner(U); int s = spanOf(U, p, t); int n = g.ival(1, p); RET(VVD, Polynomials::BasisFunctionsDerivatives(s, p, n, U, t)); }
OP(poly_basisfirst, A) { int p; VD U = kv(g, p); double t = g.inner(U); int s = spanOf(U, p, t); return [=](D& d) { double N[2][Constants::NURBSMaxDegree + 1]; memset(N, 0, sizeof N); d.dirtyArr(&N[0][0], 2 * (Constants::NURBSMaxDegree + 1)); if (d.call([&] { Polynomials::BasisFunctionsFirstOrderDerivative(s, p, U, t, N); })) { d.hold(); for (int i = 0; i <= p; i++) d << N[0][i] << N[1][i]; } }; }
OP(poly_one, A) { int p; VD U = kv(g, p); double t = g.param(U); int s = g.ival(0, (int)U.size() - p - 2); if (g.chance(0.15)) { bool e = g.flag(); t = e ? U.back() : U.front(); s = e ? (int)U.size() - p - 2 : 0; } RET(double, Polynomials::OneBasisFunction(s, p, U, t)); }
OP(poly_oneder, A) { int p; VD U = kv(g, p); double t = g.param(U); int s = g.ival(0, (int)U.size() - p - 2); int n = g.ival(1, p); RET(VD, Polynomials::OneBasisFunctionDerivative(s, p, n, U, t)); }
OP(poly_all, A) { int p; VD U = kv(g, p); double t = g.inner(U); int s = spanOf(U, p, t); RET(VVD, Polynomials::AllBasisFunctions(s, p, U, t)); }
OP(poly_b2p, A) { int p = g.ival(1, 7); RET(VVD, Polynomials::BezierToPowerMatrix(p)); }
OP(poly_p2b, A) { int p = g.ival(1, 6); return [=](D& d) { VVD a, b; const VVD* q; if (d.call([&] { a = Polynomials::BezierToPowerMatrix(p); }) && d.ro(q, a) && d.call([&] { b = Polynomials::PowerToBezierMatrix(p, *q); })) { d.hold(); d << b; } }; }
// ---- knot vectors
OP(kv_cont, A) { int p; VD U = kv(g, p); double t = g.chance(0.6) ? g.knotOf(U, p) : g.param(U); RET(int, KnotVectorUtils::GetContinuity(p, U, t)); }
OP(kv_rescale, A) { int p; VD U = kv(g, p); double a = g.real(-3, 1), b = a + g.real(0.5, 4); RET(VD, KnotVectorUtils::Rescale(U, a, b)); }
OP(kv_ins1, A) { int p; VD U = kv(g, p); double lo = U.front(), hi = U.back(); double a = g.strict(lo, lo + 0.4 * (hi - lo)), b = g.strict(lo + 0.6 * (hi - lo), hi); RET(VD, KnotVectorUtils::GetInsertedKnotElement(p, U, a, b)); }
typedef std::map<double, int> MDI;
OP(kv_map, A) { int p; VD U = kv(g, p); RET(MDI, KnotVectorUtils::GetKnotMultiplicityMap(U)); }
OP(kv_imap, A) { int p; VD U = kv(g, p); RET(MDI, KnotVectorUtils::GetInternalKnotMultiplicityMap(U)); }
OP(kv_ins2, A) { int p = g.ival(1, 4); VD a = g.knots(p, p + 1 + g.pick(5), 2), b = g.knots(p, p + 1 + g.pick(5), 3); return [=](D& d) { VD x, y; d.dirty(x); d.dirty(y); if (d.call([&] { KnotVectorUtils::GetInsertedKnotElement(a, b, x, y); })) { d.hold(); d << x << y; } }; }
OP(kv_insn, A) { int p = g.ival(1, 3); VVD v; int n = g.ival(1, 4); for (int i = 0; i < n; i++) v.push_back(g.knots(p, p + 1 + g.pick(4))); RET(VVD, KnotVectorUtils::GetInsertedKnotElements(v)); }
OP(kv_inscount, A) { int p; VD U = kv(g, p); int n = g.ival(1, 4); RET(VD, KnotVectorUtils::GetInsertedKnotElements(n, U)); }
OP(kv_uniform, A) { int p; VD U = kv(g, p); RET(bool, KnotVectorUtils::IsUniform(U)); }
// ---- interpolation helpers
static VP few(G& g) { int n = g.ival(2, 9); auto p = g.points(n); if (g.chance(0.08)) for (auto& q : p) q = p[0]; if (g.chance(0.06)) p.resize(g.flag() ? 1 : 0); return p; } // also all equal, one point, none
OP(int_chord, A) { auto p = few(g); RET(double, Interpolation::GetTotalChordLength(p)); }
OP(int_chordp, A) { auto p = few(g); RET(VD, Interpolation::GetChordParameterization(p)); }
OP(int_cent, A) { auto p = few(g); RET(double, Interpolation::GetCentripetalLength(p)); }
OP(int_centp, A) { auto p = few(g); RET(VD, Interpolation::GetCentripetalParameterization(p)); }
static VD mono(G& g, int n) { VD v; v.push_back(0); for (int i = 1; i + 1 < n; i++) v.push_back((i + g.real(-0.4, 0.4)) / (n - 1)); v.push_back(1); return v; }
OP(int_avg, A) { int p = g.ival(1, 4); auto v = mono(g, p + 1 + g.pick(6)); RET(VD, Interpolation::AverageKnotVector(p, v)); }
OP(int_mesh, A) { auto m = g.grid(2 + g.pick(4), 2 + g.pick(4)); return [=](D& d) { VD u, v; d.dirty(u); d.dirty(v); bool ok = false; if (d.call([&] { ok = Interpolation::GetSurfaceMeshParameterization(m, u, v); })) { d.hold(); d << ok; if (ok) d << u << v; } }; }
OP(int_tan3, A) { auto p = g.points(g.ival(1, 9)); if (g.chance(0.1) && p.size() > 3) { int i = g.pick((int)p.size() - 2); p[i + 1] = p[i]; p[i + 2] = p[i]; } RET(VP, Interpolation::ComputeTangent(p)); }
OP(int_tan5, A) { auto p = g.points(g.ival(5, 10)); OUTB(VP, Interpolation::ComputeTangent(p, r)); }
OP(int_weight, A) { XYZ a = g.pt(3), b = g.pt(3), c = g.pt(3); OUTB(double, Interpolation::ComputerWeightForRationalQuadraticInterpolation(a, b, c, r)); }
OP(int_knots, A) { int p = g.ival(2, 4); int n = p + 5 + g.pick(5); auto v = mono(g, n); int cc = g.ival(p + 1, n - 1); RET(VD, Interpolation::ComputeKnotVector(p, cc, v)); }
// ---- intersection, projection, control points, validation
OP(isect_rays, A) { XYZ a = g.pt(3), u = g.dir(), b = g.chance(0.4) ? a + g.real(1, 3) * u : g.pt(3), v = g.chance(0.3) ? u : g.dir(); if (g.flag()) { a.SetZ(0); b.SetZ(0); u = XYZ(1, g.real(-1, 1), 0); v = XYZ(g.real(-1, 1), 1, 0); } return [=](D& d) { double p = 0, q = 0; XYZ x; d.dirty(p); d.dirty(q); d.dirty(x); int t = -1; if (d.call([&] { t = (int)Intersection::ComputeRays(a, u, b, v, p, q, x); })) { d.hold(); d << t; if (t == 0) d << p << q << x; } }; }
OP(isect_plane, A) { XYZ n = g.dir(), o = g.pt(3), l = g.pt(3), v = g.dir(); return [=](D& d) { XYZ x; d.dirty(x); int t = -1; if (d.call([&] { t = (int)Intersection::ComputeLineAndPlane(n, o, l, v, x); })) { d.hold(); d << t; if (t == 0) d << x; } }; }
OP(proj_ray, A) { XYZ o = g.pt(3), v = g.dir(), p = g.pt(4); RET(XYZ, Projection::PointToRay(o, v, p)); }
OP(proj_line, A) { XYZ o = g.pt(3), v = g.pt(5), p = g.pt(4); OUTB(XYZ, Projection::PointToLine(o, v, p, r)); }
OP(proj_stereo, A) { XYZ p = g.pt(2); double R = g.real(2.5, 4); RET(XYZ, Projection::Stereographic(p, R)); }
static std::vector<VW> wgrid(G& g) { std::vector<VW> o; for (auto& r : g.grid(2 + g.pick(3), 2 + g.pick(3))) { VW w; for (auto& p : r) w.push_back(XYZW(p, g.real(0.5, 2))); o.push_back(w); } return o; }
OP(cp_toxyz, A) { VW w; for (auto& p : g.points(g.ival(1, 6))) w.push_back(XYZW(p, g.real(0.5, 2))); RET(VP, ControlPointsUtils::ToXYZ(w)); }
OP(cp_toxyz2, A) { auto w = wgrid(g); RET(std::vector<VP>, ControlPointsUtils::ToXYZ(w)); }
OP(cp_toxyzw, A) { auto m = g.grid(2 + g.pick(3), 2 + g.pick(3)); RET(std::vector<VW>, ControlPointsUtils::ToXYZW(m)); }
OP(cp_mul1, A) { auto w = wgrid(g); VVD m = g.mat((int)w[0].size(), 2 + g.pick(3)); RET(std::vector<VW>, ControlPointsUtils::Multiply(w, m)); }
OP(cp_mul2, A) { auto w = wgrid(g); VVD m = g.mat(2 + g.pick(3), (int)w.size()); RET(std::vector<VW>, ControlPointsUtils::Multiply(m, w)); }
OP(valid_all, A) { int p = g.ival(0, 5), a = g.ival(0, 12), b = g.ival(0, 8); int q; VD U = kv(g, q); if (g.flag()) U[q] += 9; VW w; for (auto& x : g.points(3)) w.push_back(XYZW(x, g.real(0.5, 2))); return [=](D& d) { bool r[5] = { 0 }; double t = 0; if (d.call([&] { r[0] = ValidationUtils::IsValidBezier(p, b); r[1] = ValidationUtils::IsValidKnotVector(U); r[2] = ValidationUtils::IsValidBspline(p, a, b); r[3] = ValidationUtils::IsValidNurbs(p, a, b); r[4] = ValidationUtils::IsValidDegreeReduction(p); t = ValidationUtils::ComputeCurveModifyTolerance(w); })) { d.hold(); for (bool x : r) d << x; d << t; } }; }

// ---- math utils
OP(math_cmp, M) { double a = g.real(-2, 2), b = g.chance(0.3) ? a + 1e-12 : g.real(-2, 2); return [=](D& d) { bool r[7] = { 0 }; double x = 0, y = 0; if (d.call([&] { r[0] = MathUtils::IsAlmostEqualTo(a, b); r[1] = MathUtils::IsGreaterThan(a, b); r[2] = MathUtils::IsGreaterThanOrEqual(a, b); r[3] = MathUtils::IsLessThan(a, b); r[4] = MathUtils::IsLessThanOrEqual(a, b); r[5] = MathUtils::IsInfinite(a / (b - b)); r[6] = MathUtils::IsNaN((a - a) / (b - b)); x = MathUtils::RadiansToAngle(a); y = MathUtils::AngleToRadians(b); })) { d.hold(); for (bool q : r) d << q; d << x << y; } }; }
OP(math_fact, M) { int n = g.ival(0, 20); RET(long long, MathUtils::Factorial(n)); }
OPW(math_binom, M, 16) { int n = g.ival(0, 40); int i = g.ival(-1, n + 1); RET(double, MathUtils::Binomial(n, i)); }
OP(math_err, M) { int n = g.ival(-2, 25); RET(long long, MathUtils::Factorial(n)); }
OP(math_cubic, M) { double a = g.real(0.5, 2), b = g.real(-3, 3), c = g.real(-3, 3), e = g.real(-2, 2); if (g.flag()) a = -a; int k = g.pick(8); if (k == 0) { a = 1; b = 0; c = -2; e = 2; } else if (k == 1) { a = 2; b = -3; c = 0; e = g.real(0, 1); } RET(double, MathUtils::ComputerCubicEquationsWithOneVariable(a, b, c, e)); }
OP(math_transpose, M) { VVD m = g.mat(1 + g.pick(4), 1 + g.pick(4)); OUTV(VVD, MathUtils::Transpose(m, r)); }
OP(math_column, M) { VVD m = g.mat(1 + g.pick(4), 1 + g.pick(4)); int c = g.ival(0, (int)m[0].size() - 1); RET(VD, MathUtils::GetColumn(m, c)); }
OP(math_mul, M) { VVD a = g.mat(1 + g.pick(4), 3), b = g.mat(3, 1 + g.pick(4)); RET(VVD, MathUtils::MatrixMultiply(a, b)); }
OP(math_diag, M) { int n = g.ival(1, 6); RET(VVD, MathUtils::MakeDiagonal(n)); }
OP(math_create, M) { int n = g.ival(1, 6), m = g.ival(1, 6); RET(VVD, MathUtils::CreateMatrix(n, m)); }
OP(math_det, M) { int n = g.ival(1, 5); VVD a = g.mat(n, n); RET(double, MathUtils::GetDeterminant(a)); }
OP(math_inv, M) { int n = g.ival(1, 5); VVD a = g.mat(n, n); if (g.chance(0.2) && n > 1) a[1] = a[0]; OUTB(VVD, MathUtils::MakeInverse(a, r)); }
OP(math_obb, M) { std::vector<std::array<double, 3>> p; int n = g.ival(4, 9); for (int i = 0; i < n; i++) { XYZ q = g.pt(4); p.push_back({ q.GetX(), q.GetY(), q.GetZ() }); } return [=](D& d) { std::array<double, 3> c{ 0,0,0 }; std::array<double, 3> ax[3]; for (auto& x : ax) for (auto& y : x) { y = 0; d.dirty(y); } if (d.call([&] { MathUtils::ComputeOBBAxes(p, c, ax); })) { d.hold(); for (auto& x : ax) for (auto& y : x) d << y; } }; }
OP(math_solve, M) { int n = g.ival(1, 5); VVD a = g.mat(n, n), b = g.mat(n, 1 + g.pick(3)); for (int i = 0; i < n; i++) a[i][i] += 8; RET(VVD, MathUtils::SolveLinearSystem(a, b)); }
OP(math_banded, M) { int n = g.ival(3, 6); int bw = 1 + 2 * g.ival(0, 1); VVD a(n, VD(bw, 0.0)), b = g.mat(n, 1 + g.pick(3)); for (int i = 0; i < n; i++) for (int j = 0; j < bw; j++) a[i][j] = g.real(-1, 1) + (j == bw / 2 ? 6 : 0); return [=](D& d) { VVD r(n, VD(b[0].size(), 0.0)); for (auto& x : r) d.dirtyArr(x.data(), (int)x.size()); bool ok = false; if (d.call([&] { ok = MathUtils::SolveLinearSystemBanded(n, a, bw, b, r); })) { d.hold(); d << ok; if (ok) d << r; } }; } // the result matrix is sized by the caller

// ---- points, vectors, matrices
OP(uv_ops, M) { UV a = g.uv(5), b = g.uv(5); double k = g.real(0.3, 3); return [=](D& d) { UV o[9]; double q[7] = { 0 }; bool f[3] = { 0 }; if (d.call([&] { UV x = a, y = b; o[0] = a.Add(b); o[1] = a.Substract(b); o[2] = x.Normalize(); q[0] = a.DotProduct(b); q[1] = a.CrossProduct(b); q[2] = a.Distance(b); o[3] = x.Negative(); y *= k; y /= 1.5; y += a; y -= b; o[4] = -y; o[5] = a * k + k * b; o[6] = o[5] / k; q[3] = a ^ b; q[4] = a.Length(); q[5] = a.SqrLength(); q[6] = a * b; f[0] = a.IsZero(); f[1] = a.IsUnit(); f[2] = a.IsAlmostEqualTo(b); o[7] = y; o[8].SetU(a.GetU() + 1); o[8].SetV(k); o[8].U() *= 2; o[8].V() -= 1; o[8][1] += a[0]; })) { d.hold(); for (int i = 0; i < 9; i++) d << o[i]; for (double z : q) d << z; for (bool z : f) d << z; } }; }
OP(uvw_ops, M) { double a = g.real(-2, 2), b = g.real(-2, 2), c = g.real(-2, 2); return [=](D& d) { UVW w; if (d.call([&] { UVW x; x.SetU(a); x.SetV(b); x.SetW(c); x.U() += 1; x.V() -= 1; x.W() *= 2; const UVW& y = x; w = UVW(y.GetU(), y.GetV(), y.GetW()); })) { d.hold(); d << w; } }; }
OP(xyz_ops, M) { XYZ a = g.pt(5), b = g.pt(5); double k = g.real(0.3, 3); return [=](D& d) { XYZ o[12]; double q[6] = { 0 }; bool f[3] = { 0 }; if (d.call([&] { XYZ x = a, y = b; o[0] = a.Add(b); o[1] = a.Substract(b); o[2] = x.Normalize(); q[0] = a.DotProduct(b); o[3] = a.CrossProduct(b); q[1] = a.Distance(b); o[4] = a.Negative(); y *= k; y /= 1.5; y += a; y -= b; o[5] = -y; o[6] = a * k + k * b; o[7] = o[6] / k; o[8] = a ^ b; q[2] = a.Length(); q[3] = a.SqrLength(); q[4] = a.AngleTo(b); q[5] = a * b; f[0] = a.IsZero(); f[1] = o[2].IsUnit(); f[2] = a.IsAlmostEqualTo(b); o[9] = y; })) { d.hold(); for (int i = 0; i < 10; i++) d << o[i]; for (double z : q) d << z; for (bool z : f) d << z; } }; }
OP(xyzw_ops, M) { XYZW a(g.pt(5), g.real(0.5, 2)), b(g.pt(5), g.real(0.5, 2)); double k = g.real(0.3, 3); return [=](D& d) { XYZW o[6]; XYZ p, q; double e = 0; bool f = false; if (d.call([&] { o[0] = a + b; o[1] = a - b; o[2] = a; o[2] += b; o[3] = a * k; o[4] = k * b; o[5] = a / k; p = a.ToXYZ(true); q = a.ToXYZ(false); e = a.Distance(b); f = a.IsAlmostEqualTo(b); XYZW z = a; z.SetW(k); e += z[3] + a[0]; o[5] = o[5] + z; })) { d.hold(); for (auto& x : o) d << x; d << p << q << e << f; } }; }
OP(mat_create, M) { XYZ n = g.dir(), o = g.pt(3), v = g.pt(3); double a = g.real(-3, 3); return [=](D& d) { Matrix4d m[7]; if (d.call([&] { m[0] = Matrix4d::CreateReflection(n, a); m[1] = Matrix4d::CreateReflection(n); m[2] = Matrix4d::CreateRotation(n, a); m[3] = Matrix4d::CreateRotationAtPoint(o, n, a); m[4] = Matrix4d::CreateTranslation(v); m[5] = Matrix4d::CreateScale(v); m[6] = Matrix4d(XYZ(1, 0, 0), n, v, o); })) { d.hold(); for (auto& x : m) d << x; } }; }
OP(mat_ops, M) { Matrix4d a = g.matrix(), b = g.matrix(); XYZ p = g.pt(4); double w = g.real(0.5, 2); XYZW pw(p, w); return [=](D& d) { Matrix4d o[6]; XYZ q[6]; XYZW ww; double e[2] = { 0 }; bool f[4] = { 0 }; if (d.call([&] { Matrix4d x = a, y = b; o[0] = x.Multiply(b); o[1] = a * b; o[2] = a + b; o[3] = a - b; o[4] = x.GetTranspose(); f[0] = x.GetInverse(o[5]); if (!f[0]) o[5] = Matrix4d(); q[0] = x.OfPoint(p); q[1] = x.OfVector(p); q[2] = x.GetScale(); q[3] = x.GetBasisX(); q[4] = x.GetBasisY(); q[5] = x.GetBasisW(); ww = x.OfWeightedPoint(pw); e[0] = x.GetDeterminant(); f[1] = x.IsIdentity(); f[2] = x.HasReflection(); f[3] = x.IsTranslation(); y.SetBasisX(p); y.SetBasisY(p); y.SetBasisZ(p); y.SetBasisW(p); e[1] = y.GetElement(1, 2); })) { d.hold(); for (auto& x : o) d << x; for (auto& x : q) d << x; d << ww << e[0] << e[1]; for (bool x : f) d << x; } }; }
OP(mat_inverse, M) { Matrix4d a = g.matrix(); OUTB(Matrix4d, Matrix4d(a).GetInverse(r)); }

// ---- integrators with callbacks
struct CbError : std::runtime_error { const void* who; CbError(const void* w) : std::runtime_error("callback failure"), who(w) {} };
struct CbPlain { const void* who; };
// what the callback throws is the caller's business: it has to arrive unchanged
static void cbThrow(int kind, const void* who) { switch (kind) { case 0: throw CbError(who); case 1: throw 4711; case 2: throw CbPlain{ who }; default: throw std::out_of_range("callback failure"); } }
struct Poly : IntegrationFunction { VD c; int calls = 0, failAt = -1, reenter = 0, kind = 0; double seen = 0; void* want = nullptr; bool badData = false, thrown = false, nestedConst = false; double n1 = 0, n2 = 0;
  double eval(double x) { double v = 0; for (double k : c) v = v * x + k; return v; }
  static double nested1(void* self) { Poly q; q.c = { 1, 2, 3 }; q.want = self; double r = Integrator::Simpson(q, self, 0, 1); if (q.badData) ((Poly*)self)->badData = true; return r; }
  static double nested2(void* self) { Poly q; q.c = { 1, 2, 3 }; q.want = self; std::vector<double> s = Integrator::ChebyshevSeries(40); double r = Integrator::ClenshawCurtisQuadrature2(q, self, 0, 1, s); if (q.badData) ((Poly*)self)->badData = true; return r; }
  double operator()(double x, void* data) override { calls++; if (data != want) badData = true; seen += x; if (calls == failAt) { thrown = true; cbThrow(kind, this); } double v = eval(x); rt_yield(3);
    if (reenter && calls % reenter == 0) { v += 1e-3 * (nestedConst ? n1 : nested1(this)); v += 1e-3 * (nestedConst ? n2 : nested2(this)); } return v; } };
struct Poly2 : BinaryIntegrationFunction { VD c; mutable int calls = 0; int failAt = -1, kind = 0, reenter = 0; void* want = nullptr; mutable bool badData = false, thrown = false; bool nestedConst = false; double n1 = 0;
  double operator()(double u, double v, void* data) const override { calls++; if (data != want) badData = true; if (calls == failAt) { thrown = true; cbThrow(kind, this); } rt_yield(3); double r = 0; for (double k : c) r = r * u + k * v; if (reenter && calls % reenter == 0) r += 1e-3 * (nestedConst ? n1 : nested()); return r; }
  static double nested() { Poly2 q; q.c = { 1, 2, 3 }; int t = 0; q.want = &t; return Integrator::Simpson(q, &t, 0, 1, 0, 1); } };
// run one integration; says whether what the callback threw arrived as thrown
template <class P, class F> static bool integrate(D& d, P& p, F f) {
  bool own = true; bool ok = d.call([&] { own = false; try { f(); own = !p.thrown; } catch (const CbError& e) { own = p.thrown && p.kind == 0 && e.who == &p; throw; } catch (int v) { own = p.thrown && p.kind == 1 && v == 4711; throw; } catch (const CbPlain& e) { own = p.thrown && p.kind == 2 && e.who == &p; throw; } catch (const std::bad_alloc&) { own = !p.thrown; throw; } catch (const std::out_of_range& e) { own = p.thrown && p.kind == 3; throw; } catch (...) { throw; } });
  d.require(own, "what the callback threw did not reach the caller of the integration as thrown"); d.hold(); d << p.calls; d.require(!p.badData, "integrator passed another caller's data to the callback"); return ok;
}
static bool bits(double a, double b) { return !memcmp(&a, &b, 8); }
#define I (GR_ALGO | GR_CALLBACK)
#define NESTEQ "an integration whose callback integrates gives another result than with the inner values given as constants"
OP(integ_simpson, I) { VD c = g.reals(4, -2, 2); double a = g.real(-2, 0), b = g.real(0.5, 3); int f = g.chance(0.4) ? g.ival(1, 4) : -1; int re = g.chance(0.3) ? 2 : 0; int kd = g.pick(4); return [=](D& d) { double r = 0; int tag = 0; Poly p; auto set = [&](bool con, double n1, double n2) { p = Poly(); p.c = c; p.want = &tag; p.failAt = f; p.kind = kd; p.reenter = re; p.nestedConst = con; p.n1 = n1; p.n2 = n2; };
  if (integrate(d, p, [&] { set(false, 0, 0); r = Integrator::Simpson(p, &tag, a, b); })) { d << r << p.seen; if (re) { double n1 = 0, n2 = 0, r2 = 0; Poly h; if (d.call([&] { n1 = Poly::nested1(&h); n2 = Poly::nested2(&h); }) && integrate(d, p, [&] { set(true, n1, n2); r2 = Integrator::Simpson(p, &tag, a, b); })) d.require(bits(r, r2), NESTEQ); } } }; }
OP(integ_simpson2, I) { VD c = g.reals(4, -2, 2); double a = g.real(-2, 0), b = g.real(0.5, 3), e = g.real(-2, 0), h = g.real(0.5, 3); int f = g.chance(0.4) ? g.ival(1, 10) : -1; int kd = g.pick(4); int re = g.chance(0.3) ? 2 : 0; return [=](D& d) { double r = 0; int tag = 0; Poly2 p; auto set = [&](bool con, double n1) { p = Poly2(); p.c = c; p.want = &tag; p.failAt = f; p.kind = kd; p.reenter = re; p.nestedConst = con; p.n1 = n1; };
  if (integrate(d, p, [&] { set(false, 0); r = Integrator::Simpson(p, &tag, a, b, e, h); })) { d << r; if (re) { double n1 = 0, r2 = 0; if (d.call([&] { n1 = Poly2::nested(); }) && integrate(d, p, [&] { set(true, n1); r2 = Integrator::Simpson(p, &tag, a, b, e, h); })) d.require(bits(r, r2), NESTEQ); } } }; }
OP(integ_series, I) { int n = g.ival(20, 120); RET(VD, Integrator::ChebyshevSeries(n)); }
OPW(integ_cc, I, 20) { VD c = g.reals(5, -2, 2), c2 = g.reals(5, -2, 2); double a = g.real(-2, 0), b = g.real(0.5, 3); int n = 60 + 20 * g.pick(3); int f = g.chance(0.6) ? (g.chance(0.3) ? g.ival(1, 60) : g.ival(1, 12)) : -1; int re = g.chance(0.3) ? 3 : 0; int reps = g.ival(1, 3); int kd = g.pick(4); return [=](D& d) { // one workspace used again and again, also after a callback failed
    VD s; if (!d.call([&] { s = Integrator::ChebyshevSeries(n); })) return; for (int k = 0; k < reps + 1; k++) { double r = 0, r2 = 0; int tag = k; Poly p; auto set = [&](bool con, double n1, double n2) { p = Poly(); p.c = k % 2 ? c : c2; p.want = &tag; p.failAt = k == 0 ? f : -1; p.kind = kd; p.reenter = re; p.nestedConst = con; p.n1 = n1; p.n2 = n2; };
      if (integrate(d, p, [&] { set(false, 0, 0); r = Integrator::ClenshawCurtisQuadrature(p, &tag, a, b, s); })) { d << r << p.seen;
        VD s2; double n1 = 0, n2 = 0; Poly h; if ((re || k) && d.call([&] { s2 = Integrator::ChebyshevSeries(n); n1 = Poly::nested1(&h); n2 = Poly::nested2(&h); }) && integrate(d, p, [&] { set(re != 0, n1, n2); r2 = Integrator::ClenshawCurtisQuadrature(p, &tag, a, b, s2); })) d.require(bits(r, r2), "an integration with a used work space (or a callback that integrates) gives another result than with a new one"); } } }; }
OP(integ_cc2, I) { VD c = g.reals(5, -2, 2); double a = g.real(-2, 0), b = g.real(0.5, 3); int n = 60 + 20 * g.pick(3); int f = g.chance(0.4) ? g.ival(1, 12) : -1; int re = g.chance(0.3) ? 3 : 0; int kd = g.pick(4); return [=](D& d) { VD s; if (!d.call([&] { s = Integrator::ChebyshevSeries(n); })) return; double r = 0, r2 = 0; int tag = 0; Poly p; auto set = [&](bool con, double n1, double n2) { p = Poly(); p.c = c; p.want = &tag; p.failAt = f; p.kind = kd; p.reenter = re; p.nestedConst = con; p.n1 = n1; p.n2 = n2; };
    if (integrate(d, p, [&] { set(false, 0, 0); r = Integrator::ClenshawCurtisQuadrature2(p, &tag, a, b, s); })) { d << r << p.seen; double n1 = 0, n2 = 0; Poly h; if (re && d.call([&] { n1 = Poly::nested1(&h); n2 = Poly::nested2(&h); }) && integrate(d, p, [&] { set(true, n1, n2); r2 = Integrator::ClenshawCurtisQuadrature2(p, &tag, a, b, s); })) d.require(bits(r, r2), NESTEQ); } d << s; }; }
// the two variants agree (one works on a copy of the work space)
OP(integ_cc_agree, I) { VD c = g.reals(5, -2, 2); double a = g.real(-2, 0), b = g.real(0.5, 3); int n = 60 + 20 * g.pick(3); return [=](D& d) { VD s; double r = 0, r2 = 0, r3 = 0; int tag = 0; Poly p; auto set = [&] { p = Poly(); p.c = c; p.want = &tag; }; if (d.call([&] { s = Integrator::ChebyshevSeries(n); }) && integrate(d, p, [&] { set(); r = Integrator::ClenshawCurtisQuadrature2(p, &tag, a, b, s); }) && integrate(d, p, [&] { set(); r2 = Integrator::ClenshawCurtisQuadrature(p, &tag, a, b, s); }) && integrate(d, p, [&] { set(); r3 = Integrator::ClenshawCurtisQuadrature2(p, &tag, a, b, s); })) { d.require(bits(r, r3), "an integration with a used work space gives another result than with a new one"); d << r << r2; } }; }
OP(integ_tables, I) { return [=](D& d) { VD a, w; if (d.call([&] { a = Integrator::GaussLegendreAbscissae; w = Integrator::GaussLegendreWeights; })) { d.hold(); d << a << w; } }; }

// ---- entropy
static bool perp(const XYZ& n, const XYZ& r) { double l = std::sqrt(n.GetX() * n.GetX() + n.GetY() * n.GetY() + n.GetZ() * n.GetZ()); double q = std::sqrt(r.GetX() * r.GetX() + r.GetY() * r.GetY() + r.GetZ() * r.GetZ()); double c = (n.GetX() * r.GetX() + n.GetY() * r.GetY() + n.GetZ() * r.GetZ()) / l; return std::fabs(q - 1) < 1e-9 && std::fabs(c) < 1e-9; }
OP(entropy_ortho, GR_ENTROPY | GR_MATH) { XYZ n = g.dir(); int k = g.pick(8); double e = g.real(0.2, 30); if (k == 0) n = XYZ(e, -e, e); else if (k == 1) n = XYZ(-e, e, -e); else if (k == 2) n = XYZ(0, 0, e); else if (k == 3) n = XYZ(e, 0, 0); else if (k == 4) n = XYZ(0, -e, 0); else if (k == 5) n = XYZ(e, e, e); return [=](D& d) { XYZ r; if (d.call([&] { r = XYZ::CreateRandomOrthogonal(n); })) { d.hold(); d.require(perp(n, r), "the vector returned is not a unit vector orthogonal to the input"); d << r; } }; }
OP(entropy_projnormal, GR_ENTROPY | GR_CURVE) { NC c = g.chance(0.3) ? g.line() : g.curve(2, 3); if (g.chance(0.3)) { XYZ a = g.pt(); double e = g.real(1, 9); c = g.line(); c.ControlPoints = { XYZW(a, 1), XYZW(a + XYZ(e, -e, e), 1) }; } return [=](D& d) { VP r; bool cl = true; if (d.call([&] { cl = NurbsCurve::IsClosed(c); }) && d.call([&] { r = NurbsCurve::ProjectNormal(c); })) { d.hold(); d.require(r.size() == c.KnotVector.size(), "one vector per knot expected"); if (!cl) for (size_t i = 0; i < r.size(); i++) { VP t; if (d.call([&] { t = NurbsCurve::ComputeRationalCurveDerivatives(c, 1, c.KnotVector[i]); })) d.require(t[1].SqrLength() > 1e-18 ? perp(t[1], r[i]) : std::fabs(r[i].SqrLength() - 1) < 1e-6, "a projected normal is not a unit vector orthogonal to the tangent"); } d << r; } }; }
}
