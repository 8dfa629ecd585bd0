#include "harness.h"
#include "NurbsCurve.h"
#include "Interpolation.h"
#include "Constants.h"
using namespace LNLib;
namespace sim {
#define C GR_CURVE
typedef std::vector<XYZ> VP; typedef std::vector<double> VD; typedef LN_NurbsCurve NC;

OP(curve_check, C) { auto c = g.curve(); if (g.badNow(0.5)) { int k = g.pick(5); if (k == 0) c.Degree = 0; else if (k == 1) c.KnotVector.clear(); else if (k == 2) c.ControlPoints.pop_back(); else if (k == 3) c.KnotVector[1] = 99; else c.ControlPoints.clear(); } VOIDCALL(NurbsCurve::Check(c)); }
OPW(curve_point, C, 20) { auto c = g.curve(); double t = g.param(c.KnotVector); RET(XYZ, NurbsCurve::GetPointOnCurve(c, t)); }
OP(curve_derivs, C) { auto c = g.curve(); double t = g.param(c.KnotVector); int n = g.badNow() ? 0 : g.ival(1, 4); RET(VP, NurbsCurve::ComputeRationalCurveDerivatives(c, n, t)); }
OP(curve_canderive, C) { auto c = g.curve(); double t = g.chance(0.5) ? g.knotOf(c.KnotVector, c.Degree) : g.param(c.KnotVector); RET(bool, NurbsCurve::CanComputeDerivative(c, t)); }
OP(curve_curvature, C) { auto c = g.curve(2); double t = g.param(c.KnotVector); if (g.chance(0.15)) { c = g.unitStart(2 + g.pick(2)); t = 0; } RET(double, NurbsCurve::Curvature(c, t)); }
OP(curve_torsion, C) { auto c = g.curve(3); double t = g.param(c.KnotVector); if (g.chance(0.15)) { c = g.unitStart(3); t = 0; } RET(double, NurbsCurve::Torsion(c, t)); }
OP(curve_insertknot, C) { auto c = g.curve(1, 7); double t = g.chance(0.3) ? g.knotOf(c.KnotVector, c.Degree) : g.param(c.KnotVector); int n = g.badNow() ? 0 : g.ival(1, std::max(1, c.Degree)); OUTR(int, NC, NurbsCurve::InsertKnot(c, t, n, r)); }
OP(curve_cornercut, C) { auto c = g.curve(); double t = g.param(c.KnotVector); RET(XYZ, NurbsCurve::GetPointOnCurveByCornerCut(c, t)); }
OP(curve_refine, C) { auto c = g.curve(); VD k; int n = g.badNow(0.08) ? 0 : g.ival(1, 4); for (int i = 0; i < n; i++) k.push_back(i && g.chance(0.15) && c.Degree > 1 ? k.back() : g.chance(0.2) && n == 1 ? g.knotOf(c.KnotVector, c.Degree) : g.inner(c.KnotVector)); std::sort(k.begin(), k.end()); OUTV(NC, NurbsCurve::RefineKnotVector(c, k, r)); }
OP(curve_decompose, C) { auto c = g.curve(); RET(std::vector<NC>, NurbsCurve::DecomposeToBeziers(c)); }
OP(curve_removeknot, C) { auto c = g.curve(2, g.chance(0.3) ? 6 : 4); double t = g.inner(c.KnotVector); if (g.chance(0.4)) { double u = g.knotOf(c.KnotVector, c.Degree); int n = g.ival(1, 2); OUTB(NC, NurbsCurve::RemoveKnot(c, u, n, r)); } int n = g.ival(1, std::min(c.Degree, 4)); return [=](D& d) { NC m, r; const NC* q; d.dirty(r); bool ok = false; if (d.call([&] { NC mm; NurbsCurve::InsertKnot(c, t, n, mm); m = mm; }) && d.ro(q, m) && d.call([&] { ok = NurbsCurve::RemoveKnot(*q, t, n, r); })) { d.hold(); d << ok << m; if (ok) d << r; } }; }
OP(curve_removeexcess, C) { auto c = g.curve(2, 4); double t = g.inner(c.KnotVector); return [=](D& d) { NC m, r; const NC* q; d.dirty(r); if (d.call([&] { NC mm; NurbsCurve::InsertKnot(c, t, 1, mm); m = mm; }) && d.ro(q, m) && d.call([&] { NurbsCurve::RemoveExcessiveKnots(*q, r); })) { d.hold(); d << r; } }; }
OP(curve_elevate, C) { auto c = g.curve(1, 4); int n = g.badNow() ? 0 : g.ival(1, 3); OUTV(NC, NurbsCurve::ElevateDegree(c, n, r)); }
OP(curve_reduce, C) { auto c = g.curve(2, 4); if (g.chance(0.75)) { int p = g.ival(2, 6); c = g.curveN(p, p + 1, g.flag()); } if (g.chance(0.4)) OUTB(NC, NurbsCurve::ReduceDegree(c, r)); return [=](D& d) { NC m, r; const NC* q; d.dirty(r); bool ok = false; if (d.call([&] { NC mm; NurbsCurve::ElevateDegree(c, 1, mm); m = mm; }) && d.ro(q, m) && d.call([&] { ok = NurbsCurve::ReduceDegree(*q, r); })) { d.hold(); d << ok; if (ok) d << r; } }; }
OP(curve_equitess, C) { auto c = g.curve(1, 4); return [=](D& d) { VP p; VD k; d.dirty(p); d.dirty(k); if (d.call([&] { NurbsCurve::EquallyTessellate(c, p, k); })) { d.hold(); d << p << k; } }; }
OP(curve_isclosed, C) { auto c = g.curve(); RET(bool, NurbsCurve::IsClosed(c)); }
OP(curve_invert, C) { auto c = g.curve(1, 4); if (g.chance(0.3)) { XYZ p = g.pt(); RET(double, NurbsCurve::GetParamOnCurve(c, p)); } double t = g.inner(c.KnotVector); return [=](D& d) { XYZ p; const XYZ* q; double r = 0; if (d.call([&] { p = NurbsCurve::GetPointOnCurve(c, t); }) && d.ro(q, p) && d.call([&] { r = NurbsCurve::GetParamOnCurve(c, *q); })) { d.hold(); d << p << r; } }; }
OP(curve_invertall, C) { auto c = g.curve(1, 3); double t = g.inner(c.KnotVector); return [=](D& d) { XYZ p; const XYZ* q; VD r; if (d.call([&] { p = NurbsCurve::GetPointOnCurve(c, t); }) && d.ro(q, p) && d.call([&] { r = NurbsCurve::GetAllParamsOnCurve(c, *q); })) { d.hold(); d << r; } }; }
OP(curve_transform, C) { auto c = g.curve(); Matrix4d m = g.matrix(); OUTV(NC, NurbsCurve::CreateTransformed(c, m, r)); }
OP(curve_reparam, C) { auto c = g.curve(); double a = g.real(-2, 1); double b = a + g.real(0.5, 4); if (g.badNow()) b = a - 1; OUTV(NC, NurbsCurve::Reparametrize(c, a, b, r)); }
OP(curve_reparam_lin, C) { auto c = g.curve(1, 4); double al = g.real(0.5, 2), be = g.real(-0.3, 0.3), ga = g.real(-0.2, 0.2), de = g.real(1, 3); OUTV(NC, NurbsCurve::Reparametrize(c, al, be, ga, de, r)); }
OP(curve_reverse, C) { auto c = g.curve(); OUTV(NC, NurbsCurve::Reverse(c, r)); }
OP(curve_split, C) { auto c = g.curve(); double t = g.chance(0.25) ? g.param(c.KnotVector) : g.inner(c.KnotVector); return [=](D& d) { NC a, b; d.dirty(a); d.dirty(b); bool ok = false; if (d.call([&] { ok = NurbsCurve::SplitAt(c, t, a, b); })) { d.hold(); d << ok; if (ok) d << a << b; } }; }
OP(curve_extract, C) { auto c = g.curve(1, 5); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); double a = g.strict(lo, lo + 0.45 * (hi - lo)), b = g.strict(lo + 0.55 * (hi - lo), hi); if (g.chance(0.2)) { if (g.flag()) a = lo; else b = hi; } if (g.chance(0.15)) { double k = g.knotOf(c.KnotVector, c.Degree); if (k > a) b = k; } if (g.badNow()) std::swap(a, b); OUTV(NC, NurbsCurve::Extract(c, a, b, r)); }
OP(curve_merge, C) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); bool el = g.flag(); return [=](D& d) { NC a, b, r; const NC *p, *q; d.dirty(r); bool ok = false; if (d.call([&] { NC x, y; NurbsCurve::SplitAt(c, t, x, y); a = std::move(x); b = std::move(y); }) && (!el || d.call([&] { NC x; NurbsCurve::ElevateDegree(b, 1, x); b = std::move(x); })) && d.ro(p, a) && d.ro(q, b) && d.call([&] { ok = NurbsCurve::Merge(*p, *q, r); })) { d.hold(); d << ok; if (ok) d << r; } }; }
OP(curve_merge_any, C) { auto a = g.curve(1, 3), b = g.curve(1, 3); if (g.flag()) { b.ControlPoints[0] = a.ControlPoints.back(); } OUTB(NC, NurbsCurve::Merge(a, b, r)); }
OP(curve_offset, C) { auto c = g.planar(2 + g.pick(2), 4 + g.pick(2)); if (g.chance(0.1)) for (size_t i = 0; i < c.ControlPoints.size(); i++) if (i < 3 || g.flag()) { XYZ q = c.ControlPoints[i].ToXYZ(true); c.ControlPoints[i] = XYZW(XYZ(q.GetX(), 0, 0), 1); } double o = g.chance(0.06) ? 0.0 : g.chance(0.1) ? -g.real(0.1, 1.5) : g.real(0.1, 1.5); OffsetType t = (OffsetType)g.ival(0, 1); OUTV(NC, NurbsCurve::Offset(c, o, t, r)); }
OP(curve_line, C) { XYZ a = g.pt(), b = g.badNow() ? a : g.pt(); OUTV(NC, NurbsCurve::CreateLine(a, b, r)); }
OP(curve_hermite, C) { int n = g.badNow() ? 2 : g.ival(4, 8); auto p = g.points(n); VP t; for (int i = 0; i < n; i++) t.push_back(g.dir()); if (n > 2 && g.chance(0.3)) { p[n - 1] = p[0]; if (g.flag()) t[n - 1] = t[0]; } if (g.badNow()) t.pop_back(); OUTV(NC, NurbsCurve::CreateCubicHermite(p, t, r)); }
OP(curve_arc, C) { XYZ c = g.pt(); double s = g.real(-1, 1), e = s + g.real(0.3, 5.2); if (g.chance(0.1)) e = s + 2 * Constants::Pi; if (g.badNow()) e = s - 1; double a = g.real(0.5, 5), b = g.chance(0.5) ? a : g.real(0.5, 5); if (g.badNow()) a = -1; XYZ X(g.real(0.5, 3), 0, 0), Y(0, g.real(0.5, 3), 0); if (g.flag()) { double w = g.real(0, 3); X = XYZ(cos(w), sin(w), 0); Y = XYZ(-sin(w), cos(w), 0); } OUTB(NC, NurbsCurve::CreateArc(c, X, Y, s, e, a, b, r)); }
OP(curve_conicarc, C) { double a = g.real(0.3, 2.5), R = g.real(0.5, 4); XYZ s(R, 0, 0), ts(0, 1, 0), e(R * cos(a), R * sin(a), 0), te(-sin(a), cos(a), 0), p(R * cos(a / 2), R * sin(a / 2), 0); if (g.chance(0.3)) p = p * g.real(0.85, 1.1); return [=](D& d) { XYZ q; double w = 0; d.dirty(q); d.dirty(w); bool ok = false; if (d.call([&] { ok = NurbsCurve::CreateOneConicArc(s, ts, e, te, p, q, w); })) { d.hold(); d << ok; if (ok) d << q << w; } }; }
OP(curve_splitarc, C) { XYZ a = g.pt(3), p = g.pt(3), e = g.pt(3); double w = g.real(0.2, 1.5); return [=](D& d) { XYZ x, y, z; d.dirty(x); d.dirty(y); d.dirty(z); if (d.call([&] { NurbsCurve::SplitArc(a, p, w, e, x, y, z, 0); })) { d.hold(); d << x << y << z; } }; }
OP(curve_openconic, C) { double a = g.chance(0.3) ? g.real(2.15, 3.05) : g.real(0.3, 4.5), R = g.real(0.5, 4); XYZ s(R, 0, 0), ts(0, 1, 0), e(R * cos(a), R * sin(a), 0), te(-sin(a), cos(a), 0), p(R * cos(a / 2), R * sin(a / 2), 0); OUTB(NC, NurbsCurve::CreateOpenConic(s, ts, e, te, p, r)); }
OP(curve_ginterp, C) { int p = g.chance(0.2) ? g.ival(5, 7) : g.ival(1, 4); int n = p + 1 + g.pick(6); auto pts = g.points(n); if (g.badNow()) pts.resize(p); VD par; if (g.chance(0.3)) { par.push_back(0); for (int i = 1; i + 1 < (int)pts.size(); i++) par.push_back((i + g.real(-0.3, 0.3)) / (pts.size() - 1)); par.push_back(1); } OUTV(NC, NurbsCurve::GlobalInterpolation(p, pts, r, par)); }
OP(curve_ginterp_tan, C) { int p = g.chance(0.25) ? g.ival(4, 6) : g.ival(2, 3); int n = p + 2 + g.pick(5); auto pts = g.points(n); VP t; for (int i = 0; i < n; i++) t.push_back(g.dir()); double f = g.real(0.5, 1.5); if (g.badNow()) t.pop_back(); OUTV(NC, NurbsCurve::GlobalInterpolation(p, pts, t, f, r)); }
OP(curve_cubiclocal, C) { int n = g.chance(0.2) ? g.ival(1, 3) : g.ival(4, 9); auto pts = g.points(n); OUTB(NC, NurbsCurve::CubicLocalInterpolation(pts, r)); }
OP(curve_lsq, C) { int p = g.ival(1, 5); int n = p + 4 + g.pick(10); auto pts = g.points(n); int cc = g.ival(p + 1, n - 1); OUTB(NC, NurbsCurve::LeastSquaresApproximation(p, pts, cc, r)); }
OP(curve_wlsq, C) { int p = g.chance(0.4) ? g.ival(1, 5) : 3; int n = p + 5 + g.pick(6); auto pts = g.points(n); VD w; for (int i = 0; i < n; i++) w.push_back(g.chance(0.2) ? -1 : g.chance(0.05) ? 0.0 : g.real(0.5, 2)); if (g.chance(0.8)) { w[0] = -1; w[n - 1] = -1; } int tc = g.ival(0, 4); VP t; std::vector<int> ti; VD tw; for (int i = 0; i < tc; i++) { t.push_back(g.dir()); int x = i == 0 ? 0 : i == 1 ? n - 1 : 1 + (g.pick(n - 2) / 2) * 2 % (n - 2); if (i == 3) { x = ti[2] + 1; if (x >= n - 1) x = ti[2] > 1 ? 1 : 2; } ti.push_back(x); tw.push_back(g.chance(0.3) ? -1 : g.chance(0.05) ? 0.0 : 1); } if (tc > 1 && g.chance(0.4)) { int a = g.pick(tc), b = g.pick(tc); std::swap(ti[a], ti[b]); std::swap(t[a], t[b]); std::swap(tw[a], tw[b]); } int cc = g.chance(0.5) ? n - 2 : g.ival(p + 2, n - 1); OUTB(NC, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts, w, t, ti, tw, cc, r)); }
OP(curve_removebound, C) { auto c = g.curve(2, 4); int idx = c.Degree + 1 + (c.ControlPoints.size() > (size_t)c.Degree + 1 ? g.pick((int)c.ControlPoints.size() - c.Degree - 1) : 0); if (c.ControlPoints.size() == (size_t)c.Degree + 1) { c = g.curveN(3, 7, false, 1); idx = 4 + g.pick(3); } RET(double, NurbsCurve::ComputerRemoveKnotErrorBound(c, idx)); }
OP(curve_removebybound, C) { auto c = g.curveN(2 + g.pick(2), 6 + g.pick(4), false, 1); double e = g.real(0.01, 2.0); VD pr; int m = 6 + g.pick(5); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); for (int i = 0; i < m; i++) pr.push_back(lo + (hi - lo) * i / (m - 1)); return [=](D& d) { VD er(m, 0.0); NC r; d.dirty(r); if (d.call([&] { VD e2(m, 0.0); NurbsCurve::RemoveKnotsByGivenBound(c, pr, e2, e, r); er = e2; })) { d.hold(); d << r << er; } }; }
OP(curve_gapprox, C) { int p = g.ival(2, 3); int n = p + 4 + g.pick(5); auto pts = g.points(n); double e = g.real(0.02, 1); OUTV(NC, NurbsCurve::GlobalApproximationByErrorBound(p, pts, e, r)); }
struct FitIn { VP p; int a, b; XYZ s, e; double tol; };
static FitIn fitIn(G& g, double lift, bool cubic) { FitIn f; int n = 5 + g.pick(3); double a = g.real(0.4, 1.6), R = g.real(1, 4); for (int i = 0; i < n; i++) f.p.push_back(XYZ(R * cos(a * i / (n - 1)), R * sin(a * i / (n - 1)), lift * i)); f.a = 0; f.b = n - 1; f.tol = cubic ? g.real(0.1, 4) : g.real(0.01, 2); if (g.chance(cubic ? 0.1 : 0.3)) f.tol = 0.0001; int k = g.pick(8);
  if (k == 0) { f.a = g.ival(0, n - 2); f.b = f.a + 1; } else if (k == 1) { f.a = g.ival(0, n - 3); f.b = g.ival(f.a + 2, n - 1); } else if (k == 2) { XYZ o = f.p[0], d = g.dir(); for (int i = 0; i < n; i++) f.p[i] = o + (double)i * d; } else if (k == 3) for (auto& q : f.p) q = q + 0.05 * g.dir();
  auto tan = [&](int i) { double w = a * i / (n - 1); return XYZ(-sin(w), cos(w), lift); }; f.s = tan(f.a); f.e = tan(f.b); if (k == 2) f.s = f.e = f.p[1] - f.p[0]; if (k == 4) { f.e = f.s; } if (k == 5 && g.flag()) { XYZ c = f.p[f.b] - f.p[f.a]; f.s = f.e = c.Normalize(); } if (g.badNow()) f.s = XYZ(0, 0, 0); return f; }
OP(curve_fitconic, C) { FitIn f = fitIn(g, 0, false); OUTB(std::vector<XYZW>, NurbsCurve::FitWithConic(f.p, f.a, f.b, f.s, f.e, f.tol, r)); }
OP(curve_fitcubic, C) { FitIn f = fitIn(g, g.flag() ? 0.1 : 0, true); OUTB(std::vector<XYZW>, NurbsCurve::FitWithCubic(f.p, f.a, f.b, f.s, f.e, f.tol, r)); }
OP(curve_normal, C) { auto c = g.curve(2, 5); double t = g.param(c.KnotVector); if (g.chance(0.15)) { c = g.unitStart(2 + g.pick(2)); t = 0; } CurveNormal k = (CurveNormal)g.ival(0, 1); RET(XYZ, NurbsCurve::Normal(c, k, t)); }
OP(curve_projnormal, C) { auto c = g.curve(2, 4); RET(VP, NurbsCurve::ProjectNormal(c)); }
OP(curve_reposition, C) { auto c = g.curve(1, 5); double t = g.chance(0.3) ? g.param(c.KnotVector) : g.inner(c.KnotVector); int i = g.ival(0, (int)c.ControlPoints.size() - 1); XYZ m = g.dir(); double w = g.real(0.2, 2); OUTB(NC, NurbsCurve::ControlPointReposition(c, t, i, m, w, r)); }
OP(curve_weightmod, C) { auto c = g.curve(2, 5); double t = g.chance(0.2) ? g.param(c.KnotVector) : g.inner(c.KnotVector); int i = g.ival(0, (int)c.ControlPoints.size() - 1); double w = g.real(-0.3, 0.4); OUTV(NC, NurbsCurve::WeightModification(c, t, i, w, r)); }
OP(curve_neighweight, C) { auto c = g.curve(2, 4); double t = g.inner(c.KnotVector); int i = g.ival(0, (int)c.ControlPoints.size() - 2); double w = g.real(0.05, 0.4), s = g.real(0.6, 1.8); OUTB(NC, NurbsCurve::NeighborWeightsModification(c, t, i, w, s, r)); }
OP(curve_warp, C) { auto c = g.planar(2 + g.pick(2), 6 + g.pick(4)); VD sh; for (size_t i = 0; i < c.ControlPoints.size(); i++) sh.push_back(g.real(0, 1)); if (g.badNow()) sh.pop_back(); double w = g.real(0.2, 2); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); double a = g.strict(lo, lo + 0.4 * (hi - lo)), b = g.strict(lo + 0.6 * (hi - lo), hi); if (g.chance(0.1)) { if (g.flag()) a = lo; else b = hi; } if (g.chance(0.1)) { double k = g.knotOf(c.KnotVector, c.Degree); if (k < b) a = k; } XYZ pn(0, 0, g.real(0.5, 2)); OUTV(NC, NurbsCurve::Warping(c, sh, w, pn, a, b, r)); }
OP(curve_flatten, C) { auto c = g.planar(2 + g.pick(2), 6 + g.pick(4)); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); double a = g.strict(lo, lo + 0.4 * (hi - lo)), b = g.strict(lo + 0.6 * (hi - lo), hi); if (g.chance(0.1)) { if (g.flag()) a = lo; else b = hi; } if (g.chance(0.1)) { double k = g.knotOf(c.KnotVector, c.Degree); if (k < b) a = k; } XYZ s(0, g.real(-6, -4), 0), e(30, g.real(-6, -4), 0); OUTB(NC, NurbsCurve::Flattening(c, s, e, a, b, r)); }
OP(curve_bend, C) { auto c = g.planar(2 + g.pick(2), 6 + g.pick(4)); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); double a = g.strict(lo, lo + 0.4 * (hi - lo)), b = g.strict(lo + 0.6 * (hi - lo), hi); if (g.chance(0.1)) { if (g.flag()) a = lo; else b = hi; } if (g.chance(0.1)) { double k = g.knotOf(c.KnotVector, c.Degree); if (k < b) a = k; } XYZ o(g.real(2, 8), g.real(8, 12), 0); double R = g.real(3, 9), x = g.real(0.1, 0.9); OUTV(NC, NurbsCurve::Bending(c, a, b, o, R, x, r)); }
OP(curve_constraint, C) { auto c = g.chance(0.7) ? g.curveN(3, 7 + g.pick(3), false, 1) : g.curveN(2 + g.pick(3), 7 + g.pick(4), g.flag()); VD pr{ g.inner(c.KnotVector) }; VP dc{ g.pt(2) }; std::vector<int> ai{ 0 }, ad{ 0 }, fx; if (g.flag()) { pr = { 0.2 * c.KnotVector.back() + 0.8 * c.KnotVector.front(), 0.7 * c.KnotVector.back() + 0.3 * c.KnotVector.front() }; dc.push_back(g.pt(2)); ai = { 0, 1 }; ad = { 0, 1 }; } if (g.flag()) fx = { 0, (int)c.ControlPoints.size() - 1 }; if (g.badNow()) ad.pop_back(); OUTV(NC, NurbsCurve::ConstraintBasedModification(c, pr, dc, ai, ad, fx, r)); }
OP(curve_isclamp, C) { auto c = g.chance(0.4) ? g.uniformOpen() : g.chance(0.3) ? g.closedUniform() : g.chance(0.2) ? g.circle(g.real(0.5, 4), true) : g.curve(); RET(bool, NurbsCurve::IsClamp(c)); }
OP(curve_toclamp, C) { auto c = g.chance(0.25) ? g.closedUniform() : g.chance(0.7) ? g.uniformOpen() : g.curve(); OUTV(NC, NurbsCurve::ToClampCurve(c, r)); }
OP(curve_isperiodic, C) { auto c = g.chance(0.3) ? g.uniformOpen() : g.chance(0.4) ? g.closedUniform() : g.chance(0.2) ? g.circle(g.real(0.5, 4), true) : g.curve(); RET(bool, NurbsCurve::IsPeriodic(c)); }
OP(curve_tounclamp, C) { auto c = g.curve(2, 4); OUTV(NC, NurbsCurve::ToUnclampCurve(c, r)); }
OP(curve_islinear, C) { auto c = g.chance(0.3) ? g.line() : g.curve(); if (g.chance(0.3)) { c = g.curveN(2, 5, false, 1); for (int i = 0; i < 5; i++) c.ControlPoints[i] = XYZW(XYZ(i, 2 * i, i), 1); int q = g.pick(4); for (int i = 1; i <= q - 1; i++) c.ControlPoints[i] = c.ControlPoints[0]; } RET(bool, NurbsCurve::IsLinear(c)); }
OP(curve_isarc, C) { auto c = g.chance(0.7) ? g.circle(g.real(0.5, 5), g.flag()) : g.curve(); OUTB(LN_ArcInfo, NurbsCurve::IsArc(c, r)); }
OP(curve_length, C) { auto c = g.curve(1, 4); IntegratorType t = g.integ(); RET(double, NurbsCurve::ApproximateLength(c, t)); }
OP(curve_length_part, C) { auto c = g.curve(1, 4); IntegratorType t = g.integ(); double lo = c.KnotVector.front(), hi = c.KnotVector.back(); double a = g.strict(lo, lo + 0.4 * (hi - lo)), b = g.strict(lo + 0.6 * (hi - lo), hi); if (g.chance(0.1)) { if (g.flag()) a = lo; else b = hi; } if (g.chance(0.1)) { double k = g.knotOf(c.KnotVector, c.Degree); if (k < b) a = k; } RET(double, NurbsCurve::ApproximateLength(c, a, b, t)); }
OP(curve_extend, C) { auto c = g.curve(g.chance(0.1) ? 1 : 2, 4); double e = g.real(0.2, 2); bool s = g.flag(); ExtensionType t = (ExtensionType)g.ival(0, 2); OUTV(NC, NurbsCurve::Extend(c, e, s, t, r)); }
OP(curve_parambylen, C) { auto c = g.curve(1, 3); double e = g.chance(0.2) ? g.real(2, 40) : g.real(0.2, 2); IntegratorType t = g.integ(); RET(double, NurbsCurve::GetParamOnCurve(c, e, t)); }
OP(curve_paramsbylen, C) { auto c = g.curve(1, 3); double e = g.real(2, 6); IntegratorType t = g.integ(); RET(VD, NurbsCurve::GetParamsOnCurve(c, e, t)); }
OP(curve_tess, C) { auto c = g.curve(1, 4); if (g.chance(0.15)) c = g.curveN(1, 2 + g.pick(8), g.flag()); else if (g.chance(0.6)) c = g.curveN(2 + g.pick(2), 4, g.flag()); RET(VP, NurbsCurve::Tessellate(c)); }
}
