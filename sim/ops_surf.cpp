#include "harness.h"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "NurbsVolume.h"
#include "BezierSurface.h"
#include "BsplineSurface.h"
#include "Constants.h"
using namespace LNLib;
namespace sim {
#define S GR_SURFACE
#define V GR_VOLUME
typedef std::vector<XYZ> VP; typedef std::vector<double> VD; typedef LN_NurbsCurve NC; typedef LN_NurbsSurface NS; typedef LN_NurbsVolume NV;
static const VD& KV(const NS& s, bool u) { return u ? s.KnotVectorU : s.KnotVectorV; }
static const VD& KW(const NV& s, int k) { return k == 0 ? s.KnotVectorU : k == 1 ? s.KnotVectorV : s.KnotVectorW; }

OP(surf_check, S) { auto s = g.surface(); if (g.badNow(0.5)) { int k = g.pick(4); if (k == 0) s.DegreeU = 0; else if (k == 1) s.KnotVectorV.clear(); else if (k == 2) s.ControlPoints.clear(); else s.KnotVectorU[1] = 50; } VOIDCALL(NurbsSurface::Check(s)); }
OP(surf_iso, S) { auto s = g.surface(); bool u = g.flag(); double t = g.param(KV(s, u)); RET(NC, NurbsSurface::GetIsoCurve(s, t, u)); }
OPW(surf_point, S, 20) { auto s = g.surface(); UV uv = g.uvOn(s); RET(XYZ, NurbsSurface::GetPointOnSurface(s, uv)); }
OP(surf_derivs, S) { auto s = g.surface(); UV uv = g.uvOn(s); int n = g.badNow() ? 0 : g.chance(0.15) ? g.ival(1, 5) : g.ival(1, std::min(s.DegreeU, s.DegreeV)); RET(std::vector<VP>, NurbsSurface::ComputeRationalSurfaceDerivatives(s, n, uv)); }
OP(surf_first, S) { auto s = g.surface(); UV uv = g.uvOn(s); return [=](D& d) { XYZ a, b, c; d.dirty(a); d.dirty(b); d.dirty(c); if (d.call([&] { NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv, a, b, c); })) { d.hold(); d << a << b << c; } }; }
OP(surf_curvature, S) { auto s = g.surface(2, 3); UV uv = g.uvOn(s); SurfaceCurvature k = (SurfaceCurvature)g.ival(0, 5); RET(double, NurbsSurface::Curvature(s, k, uv)); }
OP(surf_bbox, S) { auto s = g.surface(); return [=](D& d) { LN_BoundingBox3d b{}; if (d.call([&] { b = NurbsSurface::GetBoundingBox(s); })) { d.hold(); d << b.MinPoint << b.MaxPoint; } }; }
OP(surf_obb, S) { auto s = g.surface(); return [=](D& d) { LN_OrientedBoundingBox3d b{}; if (d.call([&] { b = NurbsSurface::GetOrientedBoundingBox(s); })) { d.hold(); d << b.Center; for (int i = 0; i < 3; i++) d << b.Axes[i] << b.HalfExtents[i]; } }; }
OP(surf_normal, S) { auto s = g.surface(); UV uv = g.uvOn(s); RET(XYZ, NurbsSurface::Normal(s, uv)); }
OP(surf_swap, S) { auto s = g.surface(); OUTV(NS, NurbsSurface::Swap(s, r)); }
OP(surf_reverse, S) { auto s = g.surface(); SurfaceDirection k = (SurfaceDirection)g.ival(0, 2); OUTV(NS, NurbsSurface::Reverse(s, k, r)); }
OP(surf_insertknot, S) { auto s = g.surface(); bool u = g.flag(); double t = g.chance(0.3) ? g.knotOf(KV(s, u), 0) : g.chance(0.1) ? g.param(KV(s, u)) : g.inner(KV(s, u)); int n = g.badNow() ? 0 : g.ival(1, std::max(1, u ? s.DegreeU : s.DegreeV)); OUTV(NS, NurbsSurface::InsertKnot(s, t, n, u, r)); }
OP(surf_refine, S) { auto s = g.surface(); bool u = g.flag(); VD k; int n = g.badNow(0.08) ? 0 : g.ival(1, 3); for (int i = 0; i < n; i++) k.push_back(g.inner(KV(s, u))); if (n && g.chance(0.2)) k.push_back(k[0]); if (g.chance(0.1) && (u ? s.DegreeU : s.DegreeV) > 2) { double q = g.knotOf(KV(s, u), 0); if (std::count(KV(s, u).begin(), KV(s, u).end(), q) < 2) k.push_back(q); } std::sort(k.begin(), k.end()); OUTV(NS, NurbsSurface::RefineKnotVector(s, k, u, r)); }
OP(surf_decompose, S) { auto s = g.surface(1, 3); RET(std::vector<NS>, NurbsSurface::DecomposeToBeziers(s)); }
OP(surf_removeknot, S) { auto s = g.surface(1, 4); bool u = g.flag(); double t = g.inner(KV(s, u)); int ni = g.chance(0.5) ? 1 : g.ival(1, std::max(1, u ? s.DegreeU : s.DegreeV)), nr = g.chance(0.5) ? 1 : g.ival(1, ni); return [=](D& d) { NS m, r; const NS* q; d.dirty(r); if (d.call([&] { NS mm{}; NurbsSurface::InsertKnot(s, t, ni, u, mm); m = mm; }) && d.ro(q, m) && d.call([&] { NurbsSurface::RemoveKnot(*q, t, nr, u, r); })) { d.hold(); d << r; } }; }
OP(surf_elevate, S) { auto s = g.surface(1, g.chance(0.2) ? 5 : 3); bool u = g.flag(); int n = g.badNow() ? 0 : g.ival(1, 3); OUTV(NS, NurbsSurface::ElevateDegree(s, n, u, r)); }
OP(surf_reduce, S) { auto s = g.surface(2, 3); bool u = g.flag(); if (g.chance(0.3)) OUTB(NS, NurbsSurface::ReduceDegree(s, u, r)); return [=](D& d) { NS m, r; const NS* q; d.dirty(r); bool ok = false; if (d.call([&] { NS mm{}; NurbsSurface::ElevateDegree(s, 1, u, mm); m = mm; }) && d.ro(q, m) && d.call([&] { ok = NurbsSurface::ReduceDegree(*q, u, r); })) { d.hold(); d << ok; if (ok) d << r; } }; }
OP(surf_equitess, S) { int pu = 1 + g.pick(2), pv = 1 + g.pick(2); auto s = g.surfaceN(pu, pv, pu + 1, pv + 1, false); return [=](D& d) { VP p; std::vector<UV> k; d.dirty(p); d.dirty(k); if (d.call([&] { NurbsSurface::EquallyTessellate(s, p, k); })) { d.hold(); d << p << k; } }; }
static NS closedSurf(G& g) { if (g.chance(0.4)) return g.cylinder(); NS s = g.surfaceN(2, 2, 4, 3, false); bool u = g.flag(); for (size_t i = 0; i < s.ControlPoints.size(); i++) for (size_t j = 0; j < s.ControlPoints[i].size(); j++) { double w = 6.2831853 * (u ? i / (s.ControlPoints.size() - 1.0) : j / (s.ControlPoints[i].size() - 1.0)); s.ControlPoints[i][j] = XYZW(XYZ(3 * cos(w), 3 * sin(w), u ? 2.0 * j : 2.0 * i), 1); } if (u) s.ControlPoints.back() = s.ControlPoints.front(); else for (auto& r : s.ControlPoints) r.back() = r.front(); return s; }
static double nearEnd(G& g, const VD& U) { double e = g.chance(0.3) ? 0 : g.real(0.001, 0.04); return g.flag() ? U.front() + e * (U.back() - U.front()) : U.back() - e * (U.back() - U.front()); }
OP(surf_isclosed, S) { auto s = g.chance(0.5) ? closedSurf(g) : g.surface(); bool u = g.flag(); RET(bool, NurbsSurface::IsClosed(s, u)); }
OPW(surf_invert, S, 6) { auto s = g.chance(0.25) ? closedSurf(g) : g.surfaceN(2, 2, 3, 3, g.flag()); double a = g.inner(s.KnotVectorU), b = g.inner(s.KnotVectorV); if (g.chance(0.2)) a = nearEnd(g, s.KnotVectorU); if (g.chance(0.2)) b = nearEnd(g, s.KnotVectorV); return [=](D& d) { XYZ p; const XYZ* q; UV r; if (d.call([&] { p = NurbsSurface::GetPointOnSurface(s, UV(a, b)); }) && d.ro(q, p) && d.call([&] { r = NurbsSurface::GetParamOnSurface(s, *q); })) { d.hold(); d << r; } }; }
OPW(surf_invertall, S, 6) { auto s = g.chance(0.25) ? closedSurf(g) : g.surfaceN(2, 2, 3, 3, g.flag()); double a = g.inner(s.KnotVectorU), b = g.inner(s.KnotVectorV); if (g.chance(0.2)) a = nearEnd(g, s.KnotVectorU); if (g.chance(0.2)) b = nearEnd(g, s.KnotVectorV); return [=](D& d) { XYZ p; const XYZ* q; std::vector<UV> r; if (d.call([&] { p = NurbsSurface::GetPointOnSurface(s, UV(a, b)); }) && d.ro(q, p) && d.call([&] { r = NurbsSurface::GetAllParamsOnSurface(s, *q); })) { d.hold(); d << r; } }; }
OPW(surf_gsa, S, 6) { auto s = g.chance(0.2) ? closedSurf(g) : g.surface(g.chance(0.1) ? 1 : 2, 3); double a = g.inner(s.KnotVectorU), b = g.inner(s.KnotVectorV); return [=](D& d) { XYZ p; const XYZ* q; UV r; if (d.call([&] { p = NurbsSurface::GetPointOnSurface(s, UV(a, b)); }) && d.ro(q, p) && d.call([&] { r = NurbsSurface::GetParamOnSurfaceByGSA(s, *q); })) { d.hold(); d << r; } }; }
OP(surf_reparam, S) { auto s = g.surface(); double a = g.real(-2, 1), b = a + g.real(0.5, 4), e = g.real(-2, 1), f = e + g.real(0.5, 4); OUTV(NS, NurbsSurface::Reparametrize(s, a, b, e, f, r)); }
OP(surf_uvtangent, S) { auto s = g.surface(); UV uv = g.uvOn(s); XYZ t = g.dir(); OUTB(UV, NurbsSurface::GetUVTangent(s, uv, t, r)); }
OP(surf_bilinear, S) { XYZ a = g.pt(), b = g.pt(), c = g.pt(), e = g.pt(); OUTV(NS, NurbsSurface::CreateBilinearSurface(a, b, c, e, r)); }
OP(surf_cylinder, S) { XYZ o = g.pt(); double a = g.real(-1, 1), b = a + g.real(0.3, 5), R = g.real(0.5, 5), h = g.real(0.5, 9); if (g.badNow()) b = a - 1; XYZ X(g.real(0.5, 2), 0, 0), Y(0, g.real(0.5, 2), 0); OUTB(NS, NurbsSurface::CreateCylindricalSurface(o, X, Y, a, b, R, h, r)); }
static NC dom01(G& g, int mn, int mx) { NC c = g.curve(mn, mx); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); for (auto& k : c.KnotVector) k = (k - lo) / (hi - lo); return c; }
OP(surf_ruled, S) { NC a = dom01(g, 1, g.chance(0.2) ? 5 : 3), b = dom01(g, 1, 3); if (g.badNow()) for (auto& k : b.KnotVector) k *= 3; OUTV(NS, NurbsSurface::CreateRuledSurface(a, b, r)); }
OP(surf_revolved, S) { NC p = g.planar(1 + g.pick(3), 4 + g.pick(3)); XYZ o(0, -8, 0); double rad = g.chance(0.2) ? 2 * Constants::Pi : g.real(0.4, 5.5); XYZ ax(g.real(0.5, 2), 0, 0); if (g.chance(0.3)) { o = g.pt(); ax = g.dir(); } if (g.chance(0.15)) rad = (1 + g.pick(3)) * Constants::Pi / 2; OUTB(NS, NurbsSurface::CreateRevolvedSurface(o, ax, rad, p, r)); }
OP(surf_nuscale, S) { auto s = g.surface(); double a = g.real(0.5, 2), b = g.real(0.5, 2), c = g.real(0.5, 2); XYZ p = g.pt(2); if (g.chance(0.3)) p = XYZ(0, 0, 0); RET(std::vector<std::vector<XYZW>>, NurbsSurface::NonUniformScaling(s.ControlPoints, a, b, c, p)); }
OP(surf_fillet, S) { NC c = g.circle(g.real(0.5, 4), false); OUTV(NS, NurbsSurface::MakeCornerFilletSurface(c, r)); }
OP(surf_ginterp, S) { int pu = g.ival(1, 3), pv = g.ival(1, 3); auto gr = g.grid(std::max(pu, pv) + 1 + g.pick(3), std::max(pu, pv) + 1 + g.pick(3)); OUTV(NS, NurbsSurface::GlobalInterpolation(gr, pu, pv, r)); }
OP(surf_bicubic, S) { auto gr = g.grid(4 + g.pick(3), 4 + g.pick(3)); OUTB(NS, NurbsSurface::BicubicLocalInterpolation(gr, r)); }
OP(surf_gapprox, S) { auto gr = g.grid(6 + g.pick(3), 6 + g.pick(3)); int pu = g.ival(g.chance(0.2) ? 1 : 2, 3), pv = g.ival(g.chance(0.2) ? 1 : 2, 3); int a = g.ival(4, 5), b = g.ival(4, 5); OUTB(NS, NurbsSurface::GlobalApproximation(gr, pu, pv, a, b, r)); }
OP(surf_swung, S) { NC p = g.planar(2, 4 + g.pick(2)), t = g.circle(g.real(1, 3), g.flag()); double k = g.real(0.5, 2); OUTB(NS, NurbsSurface::CreateSwungSurface(p, t, k, r)); }
OP(surf_loft, S) { int n = g.chance(0.2) ? g.ival(5, 7) : g.ival(2, 4); std::vector<NC> v; bool same = g.chance(0.8), sdeg = g.chance(0.7); int lp = g.ival(1, g.chance(0.8) ? std::min(3, n - 1) : 3), ln = lp + 2 + g.pick(3), ks = g.chance(0.5) ? 1 : -1; for (int i = 0; i < n; i++) { NC c; if (!same) c = dom01(g, 1, 3); else if (sdeg) { c = g.curveN(lp, ln, g.flag(), ks); if (ks < 0 && i) c.KnotVector = v[0].KnotVector; double lo = c.KnotVector.front(), hi = c.KnotVector.back(); for (auto& k : c.KnotVector) k = (k - lo) / (hi - lo); } else { int q = i ? g.ival(1, lp) : lp; c = g.curveN(q, q + 1, g.flag(), 1); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); for (auto& k : c.KnotVector) k = (k - lo) / (hi - lo); } for (auto& q : c.ControlPoints) { XYZ a = q.ToXYZ(true); q = XYZW(XYZ(a.GetX(), a.GetY(), a.GetZ() + 5 * i), q.GetW()); } v.push_back(c); } int d0 = g.chance(0.3) ? g.ival(1, n - 1) : 0; VD kn; if (d0 && g.flag()) { if (g.chance(0.3)) kn = g.knots(d0, n, 1); else for (int i = 0; i < n; i++) kn.push_back(i == 0 ? 0 : i == n - 1 ? 1 : (i + g.real(-0.3, 0.3)) / (n - 1)); } OUTV(NS, NurbsSurface::CreateLoftSurface(v, r, d0, kn)); }
OP(surf_gsweep, S) { NC p = g.curve(1, 3), t = g.curve(1, 3); OUTV(NS, NurbsSurface::CreateGeneralizedTranslationalSweepSurface(p, t, r)); }
OPW(surf_sweep, S, 6) { NC p = g.chance(0.3) ? g.curve(1, 3) : g.circle(g.real(0.5, 2), true), t = g.planar(2 + (int)g.chance(0.3), 4 + g.pick(3)); int n = g.ival(3, 5); OUTV(NS, NurbsSurface::CreateSweepSurface(p, t, n, r)); }
OPW(surf_sweep2, S, 6) { NC p = g.circle(g.real(0.5, 2), true), t = g.planar(2, 3 + g.pick(3)); int n = g.ival(3, 5); int k = g.ival(1, 2); OUTV(NS, NurbsSurface::CreateSweepSurface(p, t, n, k, r)); }
OPW(surf_gordon, S, 6) { // a grid of curves through common points
  int a = g.ival(4, 5), b = g.ival(4, 5); auto P = g.grid(a, b); int du = g.chance(0.4) ? 2 : 3, dw = g.chance(0.4) ? 2 : 3; bool mix = g.chance(0.3); return [=](D& d) { NS r; d.dirty(r); std::vector<NC> U, W; bool ok = d.call([&] { std::vector<NC> u, w; for (int j = 0; j < b; j++) { VP c; for (int i = 0; i < a; i++) c.push_back(P[i][j]); NC k; NurbsCurve::GlobalInterpolation(du, c, k); u.push_back(k); } for (int i = 0; i < a; i++) { NC k; NurbsCurve::GlobalInterpolation(dw, P[i], k); w.push_back(k); } if (mix && u.size() > 1) { NC t; NurbsCurve::ElevateDegree(u[1], 1, t); u[1] = t; NC t2; NurbsCurve::ElevateDegree(w[0], 1, t2); w[0] = t2; } U = u; W = w; }); std::vector<VP> X; for (int j = 0; j < b; j++) { VP row; for (int i = 0; i < a; i++) row.push_back(P[i][j]); X.push_back(row); } const std::vector<NC> *qu, *qw; if (ok && d.ro(qu, U) && d.ro(qw, W) && d.call([&] { NurbsSurface::CreateGordonSurface(*qw, *qu, P, r); })) { d.hold(); d << r; } }; }
static NC bez3(XYZ a, XYZ b, XYZ c, XYZ e) { NC k; k.Degree = 3; k.KnotVector = { 0,0,0,0,1,1,1,1 }; k.ControlPoints = { XYZW(a,1), XYZW(b,1), XYZW(c,1), XYZW(e,1) }; return k; }
OP(surf_coons, S) { double W = g.real(20, 80), H = g.real(40, 120); XYZ l1(0, H, g.real(-9, 9)), b1(0, 0, 0), r1(W, 0, g.real(0, 50)), t1(W, H, g.real(0, 30)); NC L = bez3(l1, XYZ(0, H * 0.7, g.real(-9, 9)), XYZ(0, H * 0.4, g.real(-9, 9)), b1), B = bez3(b1, XYZ(W / 3, 0, g.real(-9, 9)), XYZ(W * 2 / 3, 0, g.real(-9, 9)), r1), R = bez3(r1, XYZ(W, H * 0.4, g.real(-9, 9)), XYZ(W, H * 0.7, g.real(-9, 9)), t1), T = bez3(t1, XYZ(W * 2 / 3, H, g.real(-9, 9)), XYZ(W / 3, H, g.real(-9, 9)), l1); int mix = g.chance(0.5) ? 0 : g.ival(1, 15), kn = g.chance(0.5) ? 0 : g.ival(1, 15); double kt = g.strict(0, 1); return [=](D& d) { NS r; d.dirty(r); NC c[4]; if (!d.call([&] { c[0] = L; c[1] = B; c[2] = R; c[3] = T; for (int i = 0; i < 4; i++) { if (mix >> i & 1) { NC t; NurbsCurve::ElevateDegree(c[i], 1 + i % 2, t); c[i] = t; } if (kn >> i & 1) { NC t; NurbsCurve::InsertKnot(c[i], i % 2 ? kt : 0.37, 1, t); c[i] = t; } } })) return; const NC* q[4]; for (int i = 0; i < 4; i++) d.ro(q[i], c[i]); if (d.call([&] { NurbsSurface::CreateCoonsSurface(*q[0], *q[1], *q[2], *q[3], r); })) { d.hold(); d << r; } }; }
OPW(surf_area, S, 6) { int pu = 1 + g.pick(2), pv = 1 + g.pick(2); auto s = g.surfaceN(pu, pv, pu + 1 + (int)g.chance(0.2), pv + 1, g.flag()); IntegratorType t = g.integ(); RET(double, NurbsSurface::ApproximateArea(s, t)); }
OPW(surf_triangulate, S, 12) { auto s = g.surface(g.chance(0.15) ? 1 : 2, g.chance(0.2) ? 3 : 2); int a = g.ival(2, g.chance(0.1) ? 9 : 5), b = g.ival(2, g.chance(0.1) ? 9 : 5); bool del = g.flag(); RET(LN_Mesh, NurbsSurface::Triangulate(s, a, b, del)); }
OPW(surf_sdf, S, 5) { auto s = g.surfaceN(2, 2, 3, 3, false); XYZ p = g.pt(5); RET(double, NurbsSurface::ComputeSignedDistanceFunction(s, p)); }
// templates
static LN_BezierSurface<XYZ> bezs(G& g) { LN_BezierSurface<XYZ> s; s.DegreeU = g.ival(1, 4); s.DegreeV = g.ival(1, 4); s.ControlPoints = g.grid(s.DegreeU + 1, s.DegreeV + 1); return s; }
OP(bezsurf_point, S | GR_ALGO) { auto s = bezs(g); double a = g.real(0, 1), b = g.real(0, 1); RET(XYZ, BezierSurface::GetPointOnSurfaceByDeCasteljau(s, UV(a, b))); }
OP(bezsurf_pointw, S | GR_ALGO) { LN_BezierSurface<XYZW> s; s.DegreeU = g.ival(1, 3); s.DegreeV = g.ival(1, 3); for (auto& row : g.grid(s.DegreeU + 1, s.DegreeV + 1)) { std::vector<XYZW> q; for (auto& p : row) q.push_back(XYZW(p, g.real(0.5, 2))); s.ControlPoints.push_back(q); } double a = g.real(0, 1), b = g.real(0, 1); RET(XYZW, BezierSurface::GetPointOnSurfaceByDeCasteljau(s, UV(a, b))); }
OP(bspsurf_check, S) { auto s = g.surface(); VOIDCALL(BsplineSurface::Check(s)); }
OP(bspsurf_point, S) { auto s = g.surface(); UV uv = g.uvOn(s); RET(XYZW, BsplineSurface::GetPointOnSurface(s, uv)); }
OP(bspsurf_derivs, S) { auto s = g.surface(); UV uv = g.uvOn(s); int n = g.chance(0.15) ? g.ival(1, 5) : g.ival(1, std::min(s.DegreeU, s.DegreeV)); RET(std::vector<std::vector<XYZW>>, BsplineSurface::ComputeDerivatives(s, n, uv)); }
OP(bspsurf_first, S) { auto s = g.surface(); UV uv = g.uvOn(s); return [=](D& d) { XYZW a[2][2]; for (auto& x : a) for (auto& y : x) d.dirty(y); if (d.call([&] { BsplineSurface::ComputeFirstOrderDerivative(s, uv, a); })) { d.hold(); d << a[0][0] << a[1][0] << a[0][1]; } }; }
OP(bspsurf_ctrlderivs, S) { auto s = g.surface(1, 3); UV uv = g.uvOn(s); int n = g.ival(1, 2); return [=](D& d) { std::vector<std::vector<std::vector<std::vector<XYZW>>>> r; if (d.call([&] { r = BsplineSurface::ComputeControlPointsOfDerivatives(s, n, 0, (int)s.ControlPoints.size() - 1, 0, (int)s.ControlPoints[0].size() - 1, uv); })) { d.hold(); d << r; } }; }
OP(bspsurf_all, S) { auto s = g.surface(1, 3); UV uv = g.uvOn(s); int n = g.ival(1, 2); RET(std::vector<std::vector<XYZW>>, BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, n, uv)); }

// volumes
static UVW at(G& g, const NV& v) { double a = g.param(v.KnotVectorU), b = g.param(v.KnotVectorV), c = g.param(v.KnotVectorW); return UVW(a, b, c); }
OP(vol_check, V) { auto v = g.volume(); if (g.chance(0.85)) std::reverse(v.ControlPoints.begin(), v.ControlPoints.end()); RET(bool, NurbsVolume::Check(v)); }
OP(vol_iso, V) { auto v = g.volume(); UVW p = at(g, v); int k = g.pick(3); if (k == 0) p.SetU(-1); else if (k == 1) p.SetV(-1); else p.SetW(-1); RET(NC, NurbsVolume::GetIsoCurve(v, p)); }
OPW(vol_point, V, 20) { auto v = g.volume(); UVW p = at(g, v); RET(XYZ, NurbsVolume::GetPointOnVolume(v, p)); }
OP(vol_derivs, V) { auto v = g.volume(); UVW p = at(g, v); int n = g.ival(1, g.chance(0.2) ? 3 : std::min(v.DegreeU, std::min(v.DegreeV, v.DegreeW))); RET(std::vector<std::vector<VP>>, NurbsVolume::ComputeVolumeRationalDerivatives(v, n, p)); }
OP(vol_insert, V) { auto v = g.volume(); int k = g.ival(0, 2); double t = g.chance(0.25) ? g.knotOf(KW(v, k), 0) : g.inner(KW(v, k)); int n = g.ival(1, 2); OUTV(NV, NurbsVolume::InsertKnot(v, t, n, (VolumeDirection)k, r)); }
OP(vol_split, V) { auto v = g.volume(); int k = g.ival(0, 2); double t = g.chance(0.4) ? g.param(KW(v, k)) : g.inner(KW(v, k)); return [=](D& d) { NV a, b; d.dirty(a); d.dirty(b); bool ok = false; if (d.call([&] { ok = NurbsVolume::SplitAt(v, t, (VolumeDirection)k, a, b); })) { d.hold(); d << ok; if (ok) d << a << b; } }; }
OP(vol_extract, V) { auto v = g.volume(); int k = g.ival(0, 2); double t = g.chance(0.3) ? (g.flag() ? KW(v, k).front() : KW(v, k).back()) : g.chance(0.4) ? g.param(KW(v, k)) : g.inner(KW(v, k)); RET(bool, NurbsVolume::Extract(v, t, (VolumeDirection)k, NS{})); }
OP(vol_refine, V) { auto v = g.volume(); int k = g.ival(0, 2); VD q; int n = g.ival(1, 3); for (int i = 0; i < n; i++) q.push_back(g.inner(KW(v, k))); if (g.chance(0.15) && (k == 0 ? v.DegreeU : k == 1 ? v.DegreeV : v.DegreeW) > 1) q.push_back(q[0]); std::sort(q.begin(), q.end()); OUTV(NV, NurbsVolume::RefineKnotVector(v, q, (VolumeDirection)k, r)); }
OP(vol_elevate, V) { auto v = g.volume(2); int k = g.ival(0, 2); int n = g.ival(1, g.chance(0.2) ? 3 : 2); OUTV(NV, NurbsVolume::ElevateDegree(v, n, (VolumeDirection)k, r)); }
OP(vol_isclosed, V) { auto v = g.volume(); int k = g.ival(0, 2); if (g.chance(0.6)) { int m = g.chance(0.8) ? k : g.ival(0, 2); auto& P = v.ControlPoints; if (m == 0) P.back() = P.front(); else if (m == 1) for (auto& a : P) a.back() = a.front(); else for (auto& a : P) for (auto& b : a) b.back() = b.front(); } RET(bool, NurbsVolume::IsClosed(v, (VolumeDirection)k)); }
OPW(vol_invert, V, 1) { int dg[3], np[3]; for (int i = 0; i < 3; i++) { dg[i] = 2; np[i] = dg[i] + 1; } int cl = g.chance(0.4) ? g.pick(3) : -1; if (cl >= 0) { dg[cl] = 2; np[cl] = 4; } LN_NurbsVolume v; v.DegreeU = dg[0]; v.DegreeV = dg[1]; v.DegreeW = dg[2]; VD K[3]; for (int i = 0; i < 3; i++) { K[i].assign(dg[i] + 1, 0.0); if (np[i] == 4) K[i].push_back(0.5); K[i].insert(K[i].end(), dg[i] + 1, 1.0); } v.KnotVectorU = K[0]; v.KnotVectorV = K[1]; v.KnotVectorW = K[2];
  for (int i = 0; i < np[0]; i++) { std::vector<std::vector<XYZW>> pl; for (int j = 0; j < np[1]; j++) { std::vector<XYZW> ro; for (int k = 0; k < np[2]; k++) { double q[3] = { i + g.real(-0.2, 0.2), j + g.real(-0.2, 0.2), (double)k }; if (cl >= 0) { int id[3] = { i, j, k }, o = (cl + 1) % 3; double R = 2 + id[o], an = 2.0943951023931953 * (id[cl] % 3); q[o] = R * std::cos(an); q[cl] = R * std::sin(an); } ro.push_back(XYZW(XYZ(q[0], q[1], q[2]), 1.0)); } pl.push_back(ro); } v.ControlPoints.push_back(pl); }
  double a = g.inner(v.KnotVectorU), b = g.inner(v.KnotVectorV), c = g.inner(v.KnotVectorW); bool exact = g.chance(0.2); if (cl >= 0 && g.chance(0.5)) { double e = g.flag() ? 0.003 : 0.997; if (cl == 0) a = e; else if (cl == 1) b = e; else c = e; } if (exact) { a = 13.0 / 39; b = 20.0 / 39; c = 7.0 / 39; } return [=](D& d) { XYZ p; const XYZ* q; UVW r; if (d.call([&] { p = NurbsVolume::GetPointOnVolume(v, UVW(a, b, c)); }) && d.ro(q, p) && d.call([&] { r = NurbsVolume::GetParamOnVolume(v, *q); })) { d.hold(); d << r; } }; }
OP(vol_reverse, V) { auto v = g.volume(); int k = g.ival(0, 2); OUTV(NV, NurbsVolume::Reverse(v, (VolumeDirection)k, r)); }
OP(vol_swap, V) { auto v = g.volume(); int k = g.ival(0, 2); int m = (k + 1 + g.pick(2)) % 3; OUTV(NV, NurbsVolume::Swap(v, (VolumeDirection)k, (VolumeDirection)m, r)); }
}
