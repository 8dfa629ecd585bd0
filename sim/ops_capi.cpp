// C API: results live in per-thread buffers that must stay intact until the same thread calls the C API again.
#include "harness.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "Polynomials.h"
#include "Constants.h"
#include <cstring>
#include <algorithm>
#include <memory>
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Intersection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "Matrix4d_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
#include "Polynomials_CAPI.h"
#include "Projection_CAPI.h"
#include "UV_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "XYZW_CAPI.h"
#include "XYZ_CAPI.h"
namespace sim {
#define C GR_CAPI
typedef LN_NurbsCurve NC; typedef LN_NurbsSurface NS; typedef std::vector<double> VD; typedef std::vector<XYZ> VP; typedef std::vector<int> VI;
static XYZ_C X(const XYZ& p) { return XYZ_C{ p.GetX(), p.GetY(), p.GetZ() }; }
static UV_C U_(const UV& p) { return UV_C{ p.GetU(), p.GetV() }; }
static LN_NurbsCurve_C plain(const NC& c) { LN_NurbsCurve_C v; v.degree = c.Degree; v.knot_vector = c.KnotVector.data(); v.knot_vector_count = (int)c.KnotVector.size(); v.control_points = (const XYZW_C*)c.ControlPoints.data(); v.control_point_count = (int)c.ControlPoints.size(); return v; }
struct SV { NS s; std::vector<XYZW> flat; LN_NurbsSurface_C plainV() const { LN_NurbsSurface_C o; o.degree_u = s.DegreeU; o.degree_v = s.DegreeV; o.knot_vector_u = s.KnotVectorU.data(); o.knot_vector_count_u = (int)s.KnotVectorU.size(); o.knot_vector_v = s.KnotVectorV.data(); o.knot_vector_count_v = (int)s.KnotVectorV.size(); o.control_points = (const XYZW_C*)flat.data(); o.cp_rows = (int)s.ControlPoints.size(); o.cp_cols = (int)s.ControlPoints[0].size(); return o; } };
static SV surfView(const NS& s) { SV v; v.s = s; for (auto& r : s.ControlPoints) for (auto& p : r) v.flat.push_back(p); return v; }
static std::vector<XYZ_C> pc(const VP& p) { std::vector<XYZ_C> v; for (auto& q : p) v.push_back(X(q)); return v; }
static std::vector<XYZ_C> pc2(const std::vector<VP>& p) { std::vector<XYZ_C> v; for (auto& r : p) for (auto& q : r) v.push_back(X(q)); return v; }
static D& operator<<(D& d, const XYZ_C& p) { return d << p.x << p.y << p.z; }
static D& operator<<(D& d, const UV_C& p) { return d << p.u << p.v; }
static D& operator<<(D& d, const XYZW_C& p) { return d << p.wx << p.wy << p.wz << p.w; }
static D& operator<<(D& d, const Matrix4d_C& m) { for (int i = 0; i < 16; i++) d << m.m[i]; return d; }
template <class T> static D& arr(D& d, const T* p, int n) { d << n; if (n < 0 || n > 100000) { d.require(false, "a C API result has an impossible element count"); return d; } if (!rt_readable(p, sizeof(T) * (size_t)n)) { d.require(false, "a C API result refers to memory that is not valid (released, a left stack frame, or out of bounds)"); return d; } for (int i = 0; i < n; i++) d << p[i]; return d; }
struct Part { const void* p; size_t n; };
static void apart(D& d, std::initializer_list<Part> l) { for (auto a = l.begin(); a != l.end(); ++a) for (auto b = a + 1; b != l.end(); ++b) if (a->n && b->n && (const char*)a->p < (const char*)b->p + b->n && (const char*)b->p < (const char*)a->p + a->n) d.require(false, "two parts of one C API result overlap in memory"); }
#define PT(p, n) Part{ p, sizeof(*(p)) * (size_t)(n) }
static D& operator<<(D& d, const LN_NurbsCurve_C& c) { apart(d, { PT(c.knot_vector, c.knot_vector_count), PT(c.control_points, c.control_point_count) }); d << c.degree; arr(d, c.knot_vector, c.knot_vector_count); return arr(d, c.control_points, c.control_point_count); }
static D& operator<<(D& d, const LN_NurbsSurface_C& c) { apart(d, { PT(c.knot_vector_u, c.knot_vector_count_u), PT(c.knot_vector_v, c.knot_vector_count_v), PT(c.control_points, c.cp_rows * c.cp_cols) }); d << c.degree_u << c.degree_v; arr(d, c.knot_vector_u, c.knot_vector_count_u); arr(d, c.knot_vector_v, c.knot_vector_count_v); d << c.cp_rows << c.cp_cols; return arr(d, c.control_points, c.cp_rows * c.cp_cols); }
static D& operator<<(D& d, const LNLIB_Mesh_C& m) { apart(d, { PT(m.vertices, m.vertices_count), PT(m.facets, m.facets_count), PT(m.uvs, m.uvs_count), PT(m.uv_indices, m.uv_indices_count), PT(m.normals, m.normals_count), PT(m.normal_indices, m.normal_indices_count) }); arr(d, m.vertices, m.vertices_count); arr(d, m.facets, m.facets_count); arr(d, m.uvs, m.uvs_count); arr(d, m.uv_indices, m.uv_indices_count); arr(d, m.normals, m.normals_count); return arr(d, m.normal_indices, m.normal_indices_count); }
static bool eq(const LN_NurbsCurve_C& c, const NC& n) { if (c.degree != n.Degree || c.knot_vector_count != (int)n.KnotVector.size() || c.control_point_count != (int)n.ControlPoints.size()) return false; for (int i = 0; i < c.knot_vector_count; i++) if (memcmp(&c.knot_vector[i], &n.KnotVector[i], 8)) return false; for (int i = 0; i < c.control_point_count; i++) { double w[4] = { n.ControlPoints[i].GetWX(), n.ControlPoints[i].GetWY(), n.ControlPoints[i].GetWZ(), n.ControlPoints[i].GetW() }; if (memcmp(&c.control_points[i], w, 32)) return false; } return true; }
static bool eq(const LN_NurbsSurface_C& c, const NS& n) { if (c.degree_u != n.DegreeU || c.degree_v != n.DegreeV || c.cp_rows != (int)n.ControlPoints.size() || c.knot_vector_count_u != (int)n.KnotVectorU.size() || c.knot_vector_count_v != (int)n.KnotVectorV.size()) return false; for (int i = 0; i < c.knot_vector_count_u; i++) if (memcmp(&c.knot_vector_u[i], &n.KnotVectorU[i], 8)) return false; for (int i = 0; i < c.cp_rows; i++) for (int j = 0; j < c.cp_cols; j++) { const XYZW& p = n.ControlPoints[i][j]; double w[4] = { p.GetWX(), p.GetWY(), p.GetWZ(), p.GetW() }; if (memcmp(&c.control_points[i * c.cp_cols + j], w, 32)) return false; } return true; }


// A result handed out by an earlier call as the input of this one: the call must see the same values whether it gets the result itself or a copy the caller made.
template <class T> static const T* keepCopy(D& d, int slot, const T* p, int n) { size_t k = sizeof(T) / sizeof(double); d.feedBuf[slot].assign((const double*)p, (const double*)p + k * (size_t)n); return (const T*)d.feedBuf[slot].data(); }
static LN_NurbsCurve_C VV(D& d, const NC& c) {
  LN_NurbsCurve_C in = plain(c); if (!d.feed || !d.inCall || d.feedUsed) return in; d.feedUsed = true; LN_NurbsCurve_C o{}, q{}; double a = c.KnotVector.front(), b = c.KnotVector.back();
  switch (d.feedProd) { case 1: { LN_NurbsCurve_C seg[12]; int n = LNLIB_NURBSCUR_decompose_to_beziers(in, seg, 12); if (n < 1) return in; o = seg[n > 1 ? 1 : 0]; break; } case 2: if (LNLIB_NURBSCUR_split_at(in, 0.5 * (a + b), &o, &q) <= 0) return in; break; case 3: if (LNLIB_NURBSCUR_split_at(in, 0.5 * (a + b), &q, &o) <= 0) return in; break; case 4: LNLIB_NURBSCUR_reverse(in, &o); break; default: LNLIB_NURBSCUR_reparametrize(in, a, b, &o); }
  if (d.feed == 1) { bool l = g_cur->inlib; g_cur->inlib = false; o.knot_vector = keepCopy(d, 0, o.knot_vector, o.knot_vector_count); o.control_points = keepCopy(d, 1, o.control_points, o.control_point_count); g_cur->inlib = l; }
  return o;
}
#define V(c) VV(d, c)
static LN_NurbsSurface_C SVV(D& d, const SV& s) {
  LN_NurbsSurface_C in = s.plainV(); if (!d.feed || !d.inCall || d.feedUsed) return in; d.feedUsed = true; LN_NurbsSurface_C o{};
  switch (d.feedProd) { case 1: case 2: { LN_NurbsSurface_C seg[12]; int n = LNLIB_NURBSSUR_decompose_to_beziers(in, seg, 12); if (n < 1) return in; o = seg[n > 1 ? d.feedProd - 1 : 0]; break; } case 4: LNLIB_NURBSSUR_reverse(in, 0, &o); break; default: LNLIB_NURBSSUR_reparametrize(in, s.s.KnotVectorU.front(), s.s.KnotVectorU.back(), s.s.KnotVectorV.front(), s.s.KnotVectorV.back(), &o); }
  if (d.feed == 1) { bool l = g_cur->inlib; g_cur->inlib = false; o.knot_vector_u = keepCopy(d, 0, o.knot_vector_u, o.knot_vector_count_u); o.knot_vector_v = keepCopy(d, 1, o.knot_vector_v, o.knot_vector_count_v); o.control_points = keepCopy(d, 2, o.control_points, o.cp_rows * o.cp_cols); g_cur->inlib = l; }
  return o;
}

#define VALUE(T, expr) return [=](D& d) { T r{}; if (d.call([&] { r = expr; })) { d.hold(); d << r; } }
#define HOLD2 d.hold(); d.hold();
#define CUR(stmt) return [=](D& d) { LN_NurbsCurve_C o{}; if (d.call([&] { stmt; })) { HOLD2 d << o; d.hold(); d << o; } }
#define CURI(stmt) return [=](D& d) { LN_NurbsCurve_C o{}; int ok = 0; if (d.call([&] { ok = stmt; })) { HOLD2 d << ok; if (ok > 0) { d << o; d.hold(); d << o; } } }
#define SUR(stmt) return [=](D& d) { LN_NurbsSurface_C o{}; if (d.call([&] { stmt; })) { HOLD2 d << o; d.hold(); d << o; } }
#define SURI(stmt) return [=](D& d) { LN_NurbsSurface_C o{}; int ok = 0; if (d.call([&] { ok = stmt; })) { HOLD2 d << ok; if (ok > 0) { d << o; d.hold(); d << o; } } }
// caller-provided arrays
#define ARR(T, N, stmt) return [=](D& d) { std::vector<T> o(N); int n_ = 0; if (d.call([&] { n_ = stmt; })) { d.hold(); d << n_; arr(d, o.data(), std::min(n_, (int)(N))); } }
#define ARRV(T, N, stmt) return [=](D& d) { std::vector<T> o(N); int n_ = (int)(N); if (d.call([&] { stmt; })) { d.hold(); arr(d, o.data(), std::min(n_, (int)(N))); } }
// arrays the C API allocates and the caller releases; a null pointer is its out-of-memory report
#define OWN(T, stmt, count) return [=](D& d) { T* o = nullptr; int rows = 0, cols = 1; if (d.call([&] { o = nullptr; rows = 0; cols = 1; stmt; if (!o) throw std::bad_alloc(); })) { d.hold(); d << rows << cols; if (o) arr(d, o, count); } delete[] o; }

// ---- curves
OPW(c_cur_line, C, 14) { auto a = g.pt(), b = g.pt(); return [=](D& d) { LN_NurbsCurve_C o{}; if (d.call([&] { o = LNLIB_NURBSCUR_create_line(X(a), X(b)); })) { HOLD2 d << o; d.hold(); d << o; } }; }
OP(c_cur_hermite, C) { int n = g.chance(0.15) ? g.ival(2, 3) : g.ival(4, 7); auto p = pc(g.points(n)), t = pc(g.points(n)); CUR(LNLIB_NURBSCUR_create_cubic_hermite(p.data(), n, t.data(), n, &o)); }
OPW(c_cur_arc, C, 14) { XYZ o_ = g.pt(); double s = g.real(0, 1), e = s + g.real(0.5, 5); double rx = g.real(0.5, 3), ry = g.real(0.5, 3); CURI(LNLIB_NURBSCUR_create_arc(X(o_), XYZ_C{ 1, 0, 0 }, XYZ_C{ 0, 1, 0 }, s, e, rx, ry, &o)); }
OP(c_cur_conicarc, C) { double h = g.real(1, 4); return [=](D& d) { XYZ_C p{}; double w = 0; int ok = 0; if (d.call([&] { ok = LNLIB_NURBSCUR_create_one_conic_arc(XYZ_C{ 0, 0, 0 }, XYZ_C{ 0, 1, 0 }, XYZ_C{ 4, 0, 0 }, XYZ_C{ 0, -1, 0 }, XYZ_C{ 2, h, 0 }, &p, &w); })) { d << ok; if (ok) d << p << w; } }; }
OP(c_cur_splitarc, C) { double h = g.real(1, 4), w = g.real(0.3, 1.5); return [=](D& d) { XYZ_C p{}, q{}, r{}; double iw = 0; if (d.call([&] { LNLIB_NURBSCUR_split_arc(XYZ_C{ 0, 0, 0 }, XYZ_C{ 2, h, 0 }, w, XYZ_C{ 4, 0, 0 }, &p, &q, &r, &iw); })) d << p << q << r; }; }
OP(c_cur_openconic, C) { double h = g.real(0.5, 2); double sx = g.real(0.5, 2); CURI(LNLIB_NURBSCUR_create_open_conic(XYZ_C{ 0, 0, 0 }, XYZ_C{ sx, 1, 0 }, XYZ_C{ 4, 0, 0 }, XYZ_C{ sx, -1, 0 }, XYZ_C{ 2, h, 0 }, &o)); }
OP(c_cur_interp, C) { int p = g.ival(2, 3); int n = g.ival(p + 1, 8); auto v = pc(g.points(n)); CUR(LNLIB_NURBSCUR_global_interpolation(p, v.data(), n, &o)); }
OP(c_cur_interptan, C) { int n = g.ival(3, 6); auto v = pc(g.points(n)), t = pc(g.points(n)); double f = g.real(0.5, 1.5); CUR(LNLIB_NURBSCUR_global_interpolation_with_tangents(3, v.data(), t.data(), f, n, &o)); }
OP(c_cur_cubiclocal, C) { int n = g.ival(5, 8); auto v = pc(g.points(n)); CURI(LNLIB_NURBSCUR_cubic_local_interpolation(v.data(), n, &o)); }
OP(c_cur_lsq, C) { int n = g.ival(8, 12); auto v = pc(g.points(n)); int k = g.ival(5, 6); CURI(LNLIB_NURBSCUR_least_squares_approximation(3, v.data(), n, k, &o)); }
OP(c_cur_wlsq, C) { int k = g.ival(6, 8); auto v = pc(g.points(k)); auto w = g.reals(k, 0.5, 2); auto t = pc(g.points(1)); VI ti{ 0 }; VD tw{ 1.0 }; int ck = k; CURI(LNLIB_NURBSCUR_weighted_constrained_least_squares(2, v.data(), w.data(), t.data(), ti.data(), tw.data(), 1, ck, &o)); }
OP(c_cur_rkeb, C) { auto c = g.curveN(3, 8, false); int i = g.ival(4, 7); VALUE(double, LNLIB_NURBSCUR_computer_remove_knot_error_bound(V(c), i)); }
OP(c_cur_rkbound, C) { auto c = g.curveN(3, g.ival(6, 9), false); auto ps = g.reals(5, c.KnotVector.front(), c.KnotVector.back()); std::sort(ps.begin(), ps.end()); double e = g.real(0.1, 5); return [=](D& d) { std::vector<double> er(64); int n = 0; LN_NurbsCurve_C o{}; if (d.call([&] { LNLIB_NURBSCUR_remove_knots_by_given_bound(V(c), ps.data(), (int)ps.size(), e, er.data(), &n, &o); })) { HOLD2 arr(d, er.data(), std::min(n, 64)); d << o; } }; }
OP(c_cur_gabound, C) { int n = g.ival(8, 12); auto v = pc(g.points(n)); double e = g.real(0.1, 2); CUR(LNLIB_NURBSCUR_global_approximation_by_error_bound(2, v.data(), n, e, &o)); }
OP(c_cur_fitconic, C) { int n = g.ival(4, 7); auto v = pc(g.points(n)); double e = g.real(0.1, 5); return [=](D& d) { std::vector<XYZW_C> m(64); int k = 0, ok = 0; if (d.call([&] { ok = LNLIB_NURBSCUR_fit_with_conic(v.data(), n, 0, n - 1, XYZ_C{ 1, 1, 0 }, XYZ_C{ 1, -1, 0 }, e, m.data(), &k); })) { d << ok; arr(d, m.data(), std::min(k, 64)); } }; }
OP(c_cur_fitcubic, C) { int n = g.ival(4, 7); auto v = pc(g.points(n)); double e = g.real(0.1, 5); return [=](D& d) { std::vector<XYZW_C> m(64); int k = 0, ok = 0; if (d.call([&] { ok = LNLIB_NURBSCUR_fit_with_cubic(v.data(), n, 0, n - 1, XYZ_C{ 1, 1, 0 }, XYZ_C{ 1, -1, 0 }, e, m.data(), &k); })) { d << ok; if (ok) arr(d, m.data(), std::min(k, 64)); } }; }
OP(c_cur_point, C) { auto c = g.curve(); double t = g.param(c.KnotVector); VALUE(XYZ_C, LNLIB_NURBSCUR_get_point_on_curve(V(c), t)); }
OP(c_cur_cornercut, C) { auto c = g.curve(); double t = g.param(c.KnotVector); VALUE(XYZ_C, LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(V(c), t)); }
OP(c_cur_derivs, C) { auto c = g.curve(); double t = g.param(c.KnotVector); int n = g.ival(1, 3); ARR(XYZ_C, 16, LNLIB_NURBSCUR_compute_rational_curve_derivatives(V(c), n, t, o.data())); }
OP(c_cur_curvature, C) { auto c = g.curve(2); double t = g.param(c.KnotVector); VALUE(double, LNLIB_NURBSCUR_curvature(V(c), t)); }
OP(c_cur_torsion, C) { auto c = g.curve(3); double t = g.param(c.KnotVector); VALUE(double, LNLIB_NURBSCUR_torsion(V(c), t)); }
OP(c_cur_normal, C) { auto c = g.curve(3); double t = g.inner(c.KnotVector); int k = g.ival(0, 1); VALUE(XYZ_C, LNLIB_NURBSCUR_normal(V(c), (LNLIB_ENUMS_CurveNormal_C)k, t)); }
OP(c_cur_projnormal, C | GR_ENTROPY) { auto c = g.curveN(3, g.ival(5, 7), false); ARR(XYZ_C, 4096, LNLIB_NURBSCUR_project_normal(V(c), o.data())); }
OP(c_cur_param, C) { auto c = g.curve(1, 3); XYZ p = g.pt(); VALUE(double, LNLIB_NURBSCUR_get_param_on_curve(V(c), X(p))); }
OP(c_cur_length, C) { auto c = g.curve(1, 3); int k = g.ival(0, 2); VALUE(double, LNLIB_NURBSCUR_approximate_length(V(c), (LNLIB_ENUMS_IntegratorType_C)k)); }
OP(c_cur_paramlen, C) { auto c = g.curveN(2, 4, false); double l = g.real(0.2, 2); VALUE(double, LNLIB_NURBSCUR_get_param_by_length(V(c), l, (LNLIB_ENUMS_IntegratorType_C)1)); }
OP(c_cur_paramslen, C) { auto c = g.curveN(2, 3, false); double l = g.real(1.5, 3); ARR(double, 512, LNLIB_NURBSCUR_get_params_by_equal_length(V(c), l, (LNLIB_ENUMS_IntegratorType_C)1, o.data())); }
OPW(c_cur_split, C, 14) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); return [=](D& d) { LN_NurbsCurve_C a{}, b{}; int ok = 0; NC ea, eb; bool eok = false;
  d.call([&] { NC x, y; eok = NurbsCurve::SplitAt(c, t, x, y); ea = x; eb = y; });
  if (d.call([&] { ok = LNLIB_NURBSCUR_split_at(V(c), t, &a, &b); })) { HOLD2 d << ok; if (ok && eok) { d.agrees(eq(a, ea) && eq(b, eb), "split_at: the two returned curves are not both valid at the same time"); d << a << b; } } }; }
OP(c_cur_extract, C) { auto c = g.curve(1, 4); double a = g.strict(c.KnotVector.front(), 0.5 * (c.KnotVector.front() + c.KnotVector.back())), b = g.strict(0.5 * (c.KnotVector.front() + c.KnotVector.back()), c.KnotVector.back()); CUR(LNLIB_NURBSCUR_extract(V(c), a, b, &o)); }
OP(c_cur_merge, C) { auto c = g.curve(1, 3); auto c2 = g.curve(1, 3); auto p = c.ControlPoints.back(); c2.ControlPoints.front() = p; CURI(LNLIB_NURBSCUR_merge(V(c), V(c2), &o)); }
OP(c_cur_offset, C) { auto c = g.planar(2, 4); double f = g.real(0.1, 0.5); int k = g.ival(0, 1); CUR(LNLIB_NURBSCUR_offset(V(c), f, (LNLIB_ENUMS_OffsetType_C)k, &o)); }
OPW(c_cur_decompose, C, 14) { auto c = g.curve(1, 4); int mx = g.ival(1, 10); return [=](D& d) { std::vector<LN_NurbsCurve_C> o(mx); int n = 0; std::vector<NC> e; d.call([&] { e = NurbsCurve::DecomposeToBeziers(c); });
  if (d.call([&] { n = LNLIB_NURBSCUR_decompose_to_beziers(V(c), o.data(), mx); })) { HOLD2 d << n; for (int i = 0; i < n && i < mx; i++) { if (i < (int)e.size()) d.agrees(eq(o[i], e[i]), "decompose_to_beziers: the returned segments are not all valid at the same time"); d << o[i]; } } }; }
OP(c_cur_tess, C) { auto c = g.curveN(2, 4, false); ARR(XYZ_C, 65536, LNLIB_NURBSCUR_tessellate(V(c), o.data())); }
OP(c_cur_eqtess, C) { auto c = g.curve(1, 3); int mx = g.ival(1, 30); return [=](D& d) { std::vector<XYZ_C> p(mx); std::vector<double> k(mx); if (d.call([&] { LNLIB_NURBSCUR_equally_tessellate(V(c), mx, p.data(), k.data()); })) { d.hold(); arr(d, p.data(), mx); arr(d, k.data(), mx); } }; }
OP(c_cur_transform, C) { auto c = g.curve(); Matrix4d m = g.matrix(); Matrix4d_C mc; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) mc.m[4 * i + j] = m.GetElement(i, j); CUR(LNLIB_NURBSCUR_create_transformed(V(c), mc, &o)); }
OPW(c_cur_reverse, C, 14) { auto c = g.curve(); CUR(LNLIB_NURBSCUR_reverse(V(c), &o)); }
OP(c_cur_reparam, C) { auto c = g.curve(); double a = g.real(-1, 1), b = a + g.real(0.5, 2); CUR(LNLIB_NURBSCUR_reparametrize(V(c), a, b, &o)); }
OP(c_cur_reparamlin, C) { auto c = g.curve(1, 3); double a = g.real(0.5, 2), b = g.real(1, 3); CUR(LNLIB_NURBSCUR_reparametrize_linear_rational(V(c), a, 0.1, 0.1, b, &o)); }
OPW(c_cur_insert, C, 14) { auto c = g.curve(); double t = g.inner(c.KnotVector); int n = g.ival(1, std::max(1, c.Degree)); CURI(LNLIB_NURBSCUR_insert_knot(V(c), t, n, &o)); }
OP(c_cur_remove, C) { auto c = g.curve(2, 4); double t = g.knotOf(c.KnotVector, c.Degree); CURI(LNLIB_NURBSCUR_remove_knot(V(c), t, 1, &o)); }
OP(c_cur_rmexcess, C) { auto c = g.curve(2, 4); CUR(LNLIB_NURBSCUR_remove_excessive_knots(V(c), &o)); }
OP(c_cur_refine, C) { auto c = g.curve(); VD k; for (int i = 0; i < 2; i++) k.push_back(g.inner(c.KnotVector)); std::sort(k.begin(), k.end()); CUR(LNLIB_NURBSCUR_refine_knot_vector(V(c), k.data(), 2, &o)); }
OP(c_cur_elevate, C) { auto c = g.curve(1, 4); int n = g.ival(1, 2); CUR(LNLIB_NURBSCUR_elevate_degree(V(c), n, &o)); }
OP(c_cur_reduce, C) { auto c = g.curve(2, 4); CURI(LNLIB_NURBSCUR_reduce_degree(V(c), &o)); }
OP(c_cur_preds, C) { auto c = g.curve(); double t = g.param(c.KnotVector); return [=](D& d) { int a = 0, b = 0, e = 0, f = 0, h = 0; if (d.call([&] { a = LNLIB_NURBSCUR_is_closed(V(c)); b = LNLIB_NURBSCUR_is_linear(V(c)); e = LNLIB_NURBSCUR_is_clamp(V(c)); f = LNLIB_NURBSCUR_is_periodic(V(c)); h = LNLIB_NURBSCUR_can_compute_derivative(V(c), t); })) d << a << b << e << f << h; }; }
OP(c_cur_isarc, C) { auto c = g.circle(g.real(1, 4), g.flag()); return [=](D& d) { LNLIB_ArcInfo_C i{}; int ok = 0; if (d.call([&] { ok = LNLIB_NURBSCUR_is_arc(V(c), &i); })) { d << ok; if (ok) d << i.radius << i.center; } }; }
OP(c_cur_reposition, C) { auto c = g.curveN(3, 7, true); double t = g.inner(c.KnotVector); int k = g.ival(1, 5); auto v = g.dir(); double m = g.real(0.1, 1); CURI(LNLIB_NURBSCUR_control_point_reposition(V(c), t, k, X(v), m, &o)); }
OP(c_cur_weightmod, C) { auto c = g.curveN(3, 7, true); double t = g.inner(c.KnotVector); int k = g.ival(1, 5); double m = g.real(0.01, 0.3); CUR(LNLIB_NURBSCUR_weight_modification(V(c), t, k, m, &o)); }
OP(c_cur_neighbor, C) { auto c = g.curveN(3, 7, true); double t = g.inner(c.KnotVector); int k = g.ival(1, 4); double m = g.real(0.01, 0.3); CURI(LNLIB_NURBSCUR_neighbor_weights_modification(V(c), t, k, m, 1.0, &o)); }
OP(c_cur_warp, C) { auto c = g.planar(3, 7); auto w = g.reals(7, 0.1, 1); double m = g.real(0.1, 1); CUR(LNLIB_NURBSCUR_warping(V(c), w.data(), 7, m, XYZ_C{ 0, 0, 1 }, c.KnotVector.front(), c.KnotVector.back(), &o)); }
OP(c_cur_flatten, C) { auto c = g.planar(3, 7); double y = g.real(-1, 1); double a = c.KnotVector.front(), b = c.KnotVector.back(); CURI(LNLIB_NURBSCUR_flattening(V(c), XYZ_C{ -5, y, 0 }, XYZ_C{ 30, y, 0 }, a + 0.2 * (b - a), a + 0.8 * (b - a), &o)); }
OP(c_cur_bend, C) { auto c = g.planar(3, 7); double y = g.real(5, 9); double a = c.KnotVector.front(), b = c.KnotVector.back(); CUR(LNLIB_NURBSCUR_bending(V(c), a + 0.2 * (b - a), a + 0.8 * (b - a), XYZ_C{ 5, y, 0 }, 4, 1.5, &o)); }
OP(c_cur_constraint, C) { auto c = g.curveN(3, 7, true); VD ps{ g.inner(c.KnotVector) }; auto dc = pc(VP{ XYZ(0.3, 0.2, 0.1) }); VI ai{ 0 }, ad{ 0 }, fi{ 0 }; CUR(LNLIB_NURBSCUR_constraint_based_modification(V(c), ps.data(), dc.data(), ai.data(), ad.data(), fi.data(), 1, 1, &o)); }
OP(c_cur_clamp, C) { auto c = g.uniformOpen(); CUR(LNLIB_NURBSCUR_to_clamp_curve(V(c), &o)); }
OP(c_cur_unclamp, C) { auto c = g.curveN(3, 7, false); CUR(LNLIB_NURBSCUR_to_unclamp_curve(V(c), &o)); }
// a result fed straight back as the next call's input (the usual way to chain C calls)
OPW(c_cur_chain, C, 14) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); double a = g.real(-1, 1), b = a + g.real(0.5, 2); int k = g.ival(0, 2); return [=](D& d) { NC m, e; d.call([&] { NC x, y; NurbsCurve::InsertKnot(c, t, 1, x); if (k == 0) NurbsCurve::Reverse(x, y); else if (k == 1) NurbsCurve::Reparametrize(x, a, b, y); else NurbsCurve::ElevateDegree(x, 1, y); e = y; });
  LN_NurbsCurve_C o1{}; int r = 0; if (!d.call([&] { r = LNLIB_NURBSCUR_insert_knot(plain(c), t, 1, &o1); }) || r < 1) return; NC keep; keep.Degree = o1.degree; keep.KnotVector.assign(o1.knot_vector, o1.knot_vector + o1.knot_vector_count); for (int i = 0; i < o1.control_point_count; i++) keep.ControlPoints.push_back(XYZW(o1.control_points[i].wx, o1.control_points[i].wy, o1.control_points[i].wz, o1.control_points[i].w)); d.hold();
  LN_NurbsCurve_C o2{}; auto step = [&](LN_NurbsCurve_C in) { if (k == 0) LNLIB_NURBSCUR_reverse(in, &o2); else if (k == 1) LNLIB_NURBSCUR_reparametrize(in, a, b, &o2); else LNLIB_NURBSCUR_elevate_degree(in, 1, &o2); };
  bool first = true; if (d.call([&] { LN_NurbsCurve_C in = first ? o1 : plain(keep); first = false; step(in); })) { HOLD2 d.agrees(eq(o2, e), "chaining two C API calls gives a different curve than the C++ API"); d << o2; } }; }

// ---- surfaces
#define SURFIN auto sv = surfView(g.surface(1, 3)); const NS& S = sv.s; (void)S;
OP(c_sur_point, C) { SURFIN UV uv = g.uvOn(S); VALUE(XYZ_C, LNLIB_NURBSSUR_get_point_on_surface(SVV(d, sv), U_(uv))); }
OP(c_sur_derivs, C) { SURFIN UV uv = g.uvOn(S); int n = g.ival(1, 2); ARR(XYZ_C, 32, LNLIB_NURBSSUR_compute_rational_surface_derivatives(SVV(d, sv), n, U_(uv), o.data())); }
OP(c_sur_first, C) { SURFIN UV uv = g.uvOn(S); return [=](D& d) { XYZ_C a{}, b{}, c{}; if (d.call([&] { LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(SVV(d, sv), U_(uv), &a, &b, &c); })) d << a << b << c; }; }
OP(c_sur_curvature, C) { auto sv = surfView(g.surfaceN(2, 2, 4, 4, true)); UV uv(g.inner(sv.s.KnotVectorU), g.inner(sv.s.KnotVectorV)); int k = g.ival(0, 5); VALUE(double, LNLIB_NURBSSUR_curvature(SVV(d, sv), k, U_(uv))); }
OP(c_sur_normal, C) { SURFIN UV uv = g.uvOn(S); VALUE(XYZ_C, LNLIB_NURBSSUR_Normal(SVV(d, sv), U_(uv))); }
OPW(c_sur_swap, C, 14) { SURFIN SUR(LNLIB_NURBSSUR_swap(SVV(d, sv), &o)); }
OP(c_sur_reverse, C) { SURFIN int k = g.ival(0, 2); SUR(LNLIB_NURBSSUR_reverse(SVV(d, sv), k, &o)); }
OPW(c_sur_insert, C, 14) { SURFIN int u = g.ival(0, 1); double t = g.inner(u ? S.KnotVectorU : S.KnotVectorV); SUR(LNLIB_NURBSSUR_insert_knot(SVV(d, sv), t, 1, u, &o)); }
OP(c_sur_refine, C) { SURFIN int u = g.ival(0, 1); VD k; for (int i = 0; i < 2; i++) k.push_back(g.inner(u ? S.KnotVectorU : S.KnotVectorV)); std::sort(k.begin(), k.end()); SUR(LNLIB_NURBSSUR_refine_knot_vector(SVV(d, sv), k.data(), 2, u, &o)); }
OPW(c_sur_decompose, C, 14) { SURFIN int mx = g.ival(1, 9); return [=](D& d) { std::vector<LN_NurbsSurface_C> o(mx); int n = 0; std::vector<NS> e; d.call([&] { e = NurbsSurface::DecomposeToBeziers(sv.s); });
  if (d.call([&] { n = LNLIB_NURBSSUR_decompose_to_beziers(SVV(d, sv), o.data(), mx); })) { HOLD2 d << n; for (int i = 0; i < n && i < mx; i++) { if (i < (int)e.size()) d.agrees(eq(o[i], e[i]), "decompose_to_beziers: the returned patches are not all valid at the same time"); d << o[i]; } } }; }
OP(c_sur_remove, C) { auto sv = surfView(g.surfaceN(2, 2, 5, 5, false)); int u = g.ival(0, 1); double t = g.knotOf(u ? sv.s.KnotVectorU : sv.s.KnotVectorV, 2); SUR(LNLIB_NURBSSUR_remove_knot(SVV(d, sv), t, 1, u, &o)); }
OP(c_sur_elevate, C) { SURFIN int u = g.ival(0, 1); SUR(LNLIB_NURBSSUR_elevate_degree(SVV(d, sv), 1, u, &o)); }
OP(c_sur_reduce, C) { auto sv = surfView(g.surface(2, 3)); int u = g.ival(0, 1); SURI(LNLIB_NURBSSUR_reduce_degree(SVV(d, sv), u, &o)); }
OP(c_sur_eqtess, C) { auto sv = surfView(g.surfaceN(1, 2, 2, 3, false)); int mx = g.ival(1, 40); return [=](D& d) { std::vector<XYZ_C> p(mx); std::vector<UV_C> k(mx); if (d.call([&] { LNLIB_NURBSSUR_equally_tessellate(SVV(d, sv), p.data(), k.data(), mx); })) { d.hold(); arr(d, p.data(), mx); arr(d, k.data(), mx); } }; }
OP(c_sur_closed, C) { SURFIN int u = g.ival(0, 1); VALUE(int, LNLIB_NURBSSUR_is_closed(SVV(d, sv), u)); }
OP(c_sur_param, C) { auto sv = surfView(g.surfaceN(2, 2, 3, 3, false)); XYZ p = g.pt(3); VALUE(UV_C, LNLIB_NURBSSUR_get_param_on_surface(SVV(d, sv), X(p))); }
OP(c_sur_paramgsa, C) { auto sv = surfView(g.surfaceN(2, 2, 3, 3, false)); XYZ p = g.pt(3); VALUE(UV_C, LNLIB_NURBSSUR_get_param_on_surface_by_gsa(SVV(d, sv), X(p))); }
OP(c_sur_reparam, C) { SURFIN double a = g.real(-1, 1), b = g.real(-1, 1); SUR(LNLIB_NURBSSUR_reparametrize(SVV(d, sv), a, a + 1.5, b, b + 2, &o)); }
OP(c_sur_uvtan, C) { SURFIN UV uv = g.uvOn(S); auto t = g.dir(); return [=](D& d) { UV_C o{}; int ok = 0; if (d.call([&] { ok = LNLIB_NURBSSUR_get_uv_tangent(SVV(d, sv), U_(uv), X(t), &o); })) { d << ok; if (ok) d << o; } }; }
OPW(c_sur_bilinear, C, 14) { auto a = g.pt(), b = g.pt(), c = g.pt(), e = g.pt(); SUR(LNLIB_NURBSSUR_create_bilinear_surface(X(a), X(b), X(c), X(e), &o)); }
OP(c_sur_cyl, C) { auto a = g.pt(); double r = g.real(1, 3), h = g.real(1, 5), e = g.real(1, 6); SURI(LNLIB_NURBSSUR_create_cylindrical_surface(X(a), XYZ_C{ 1, 0, 0 }, XYZ_C{ 0, 1, 0 }, 0, e, r, h, &o)); }
OP(c_sur_ruled, C) { auto a = g.curve(1, 3), b = g.curve(1, 3); if (g.chance(0.85)) for (NC* c : { &a, &b }) { double lo = c->KnotVector.front(), hi = c->KnotVector.back(); for (auto& k : c->KnotVector) k = (k - lo) / (hi - lo); } SUR(LNLIB_NURBSSUR_create_ruled_surface(V(a), V(b), &o)); }
OP(c_sur_revolve, C) { auto c = g.curveN(2, 4, false); double r = g.real(1, 6); SURI(LNLIB_NURBSSUR_create_revolved_surface(XYZ_C{ 0, 0, 0 }, XYZ_C{ 0, 0, 1 }, r, V(c), &o)); }
OP(c_sur_scale, C) { SURFIN double a = g.real(0.5, 2), b = g.real(0.5, 2); XYZ p = g.pt(2); auto fl = sv.flat; int rr = (int)S.ControlPoints.size(), cc = (int)S.ControlPoints[0].size(); OWN(XYZW_C, LNLIB_NURBSSUR_non_uniform_scaling_query_size((const XYZW_C*)fl.data(), rr, cc, a, b, 1.1, X(p), &o, &rows, &cols), rows * cols); }
OP(c_sur_fillet, C) { double a = g.real(0.5, 3); return [=](D& d) { LN_NurbsSurface_C o{}; NC arc; const NC* q; if (d.call([&] { NC x; NurbsCurve::CreateArc(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 1.2, a, a, x); arc = x; }) && d.ro(q, arc) && d.call([&] { LNLIB_NURBSSUR_make_corner_fillet_surface(V(*q), &o); })) { HOLD2 d << o; } }; }
OP(c_sur_interp, C) { int r = g.ival(4, 5), c = g.ival(4, 5); auto p = pc2(g.grid(r, c)); SUR(LNLIB_NURBSSUR_global_interpolation(p.data(), r, c, 3, 2, &o)); }
OP(c_sur_bicubic, C) { int r = 5, c = 5; auto p = pc2(g.grid(r, c)); SURI(LNLIB_NURBSSUR_bicubic_local_interpolation(p.data(), r, c, &o)); }
OP(c_sur_approx, C) { int r = 6, c = 6; auto p = pc2(g.grid(r, c)); SURI(LNLIB_NURBSSUR_global_approximation(p.data(), r, c, 2, 2, 4, 4, &o)); }
OP(c_sur_swung, C) { auto a = g.planar(2, 4), b = g.planar(2, 4); double s = g.real(0.5, 2); SURI(LNLIB_NURBSSUR_create_swung_surface(V(a), V(b), s, &o)); }
OP(c_sur_loft, C) { std::vector<NC> cs; int n = g.ival(2, 4); if (g.chance(0.8)) { int p = g.ival(1, g.chance(0.8) ? std::min(3, n - 1) : 3), m = p + 1 + g.pick(4); for (int i = 0; i < n; i++) { cs.push_back(g.curveN(p, m, g.flag(), 1)); if (i) cs[i].KnotVector = cs[0].KnotVector; } } else for (int i = 0; i < n; i++) cs.push_back(g.curve(1, 3)); int q = g.chance(0.3) ? g.ival(1, n - 1) : 0; VD kn; if (q && g.flag()) { if (g.chance(0.3)) kn = g.knots(q, n, 1); else for (int i = 0; i < n; i++) kn.push_back(i == 0 ? 0 : i == n - 1 ? 1 : (i + g.real(-0.3, 0.3)) / (n - 1)); } return [=](D& d) { std::vector<LN_NurbsCurve_C> v; for (auto& c : cs) v.push_back(V(c)); LN_NurbsSurface_C o{}; if (d.call([&] { LNLIB_NURBSSUR_create_loft_surface(v.data(), (int)v.size(), &o, q, kn.empty() ? nullptr : kn.data(), (int)kn.size()); })) { HOLD2 d << o; } }; }
OP(c_sur_gts, C) { auto a = g.curve(1, 3), b = g.curve(1, 3); SUR(LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(V(a), V(b), &o)); }
OPW(c_sur_sweep, C | GR_ENTROPY, 2) { auto a = g.planar(2, 3); auto b = g.curveN(3, 5, false); SUR(LNLIB_NURBSSUR_create_sweep_surface(V(a), V(b), 3, &o)); }
OPW(c_sur_sweep2, C | GR_ENTROPY, 2) { auto a = g.planar(2, 3); auto b = g.curveN(3, 5, false); SUR(LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(V(a), V(b), 4, 3, &o)); }
OP(c_sur_coons, C) { double a = g.real(1, 3); NC l, b, r, t; auto mk = [](NC& c, XYZ p, XYZ q) { c.Degree = 1; c.KnotVector = { 0, 0, 1, 1 }; c.ControlPoints = { XYZW(p, 1), XYZW(q, 1) }; }; mk(l, XYZ(0, a, 0), XYZ(0, 0, 0)); mk(b, XYZ(0, 0, 0), XYZ(a, 0, 1)); mk(r, XYZ(a, 0, 1), XYZ(a, a, 0)); mk(t, XYZ(a, a, 0), XYZ(0, a, 0)); return [=](D& d) { LN_NurbsSurface_C o{}; if (d.call([&] { LNLIB_NURBSSUR_create_coons_surface(V(l), V(b), V(r), V(t), &o); })) { HOLD2 d << o; } }; }
OP(c_sur_gordon, C) { double h = g.real(0, 1); std::vector<NC> us, vs; std::vector<XYZ_C> ip; auto mk = [](XYZ p, XYZ q, XYZ s) { NC c; c.Degree = 2; c.KnotVector = { 0, 0, 0, 1, 1, 1 }; c.ControlPoints = { XYZW(p, 1), XYZW(q, 1), XYZW(s, 1) }; return c; }; for (int i = 0; i < 3; i++) { us.push_back(mk(XYZ(0, i, h), XYZ(1, i, h), XYZ(2, i, h))); vs.push_back(mk(XYZ(i, 0, h), XYZ(i, 1, h), XYZ(i, 2, h))); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ip.push_back(XYZ_C{ (double)j, (double)i, h }); return [=](D& d) { std::vector<LN_NurbsCurve_C> a, b; for (auto& c : us) a.push_back(V(c)); for (auto& c : vs) b.push_back(V(c)); LN_NurbsSurface_C o{}; if (d.call([&] { LNLIB_NURBSSUR_create_gordon_surface(a.data(), 3, b.data(), 3, ip.data(), &o); })) { HOLD2 d << o; } }; }
OP(c_sur_area, C) { auto sv = surfView(g.surfaceN(1, 2, 2, 3, false)); int k = g.ival(0, 2); VALUE(double, LNLIB_NURBSSUR_approximate_area(SVV(d, sv), k)); }
OPW(c_sur_tri, C, 14) { SURFIN int a = g.ival(2, 5), b = g.ival(2, 5); return [=](D& d) { LNLIB_Mesh_C o{}; if (d.call([&] { o = LNLIB_NURBSSUR_triangulate(SVV(d, sv), a, b, 0); })) { HOLD2 d << o; d.hold(); d << o; } }; }
OPW(c_sur_tridel, C, 2) { auto sv = surfView(g.surfaceN(2, 2, 3, 3, false)); return [=](D& d) { LNLIB_Mesh_C o{}; if (d.call([&] { o = LNLIB_NURBSSUR_triangulate(SVV(d, sv), 3, 3, 1); })) { HOLD2 d << o; } }; }
// curve, surface and mesh results of one thread used together with what other threads do
OPW(c_mixed_hold, C, 12) { auto c = g.curve(1, 3); SURFIN int k = g.ival(0, 2); return [=](D& d) { LN_NurbsCurve_C oc{}; LN_NurbsSurface_C os{}; LNLIB_Mesh_C om{}; for (int i = 0; i < 3; i++) { int w = (i + k) % 3; if (w == 0) { if (d.call([&] { LNLIB_NURBSCUR_reverse(V(c), &oc); })) { HOLD2 d << oc; } } else if (w == 1) { if (d.call([&] { LNLIB_NURBSSUR_swap(SVV(d, sv), &os); })) { HOLD2 d << os; } } else if (d.call([&] { om = LNLIB_NURBSSUR_triangulate(SVV(d, sv), 3, 3, 0); })) { HOLD2 d << om; } } }; }

// ---- polynomials, knots, interpolation and the value types
OP(c_poly, C) { int p = g.ival(1, 5); auto co = g.reals(p + 1, -2, 2); double t = g.real(0, 1); int i = g.ival(0, p); return [=](D& d) { double a = 0, b = 0; VD o(p + 1); if (d.call([&] { a = LNLIB_POLY_horner(p, co.data(), p + 1, t); b = LNLIB_POLY_bernstein(i, p, t); LNLIB_POLY_all_bernstein(p, t, o.data()); })) d << a << b << o; }; }
OP(c_poly_uv, C) { int p = g.ival(1, 3), q = g.ival(1, 3); auto co = g.reals((p + 1) * (q + 1), -2, 2); UV uv(g.real(0, 1), g.real(0, 1)); UV_C u = U_(uv); return [=](D& d) { double r = 0; if (d.call([&] { LNLIB_POLY_horner_uv(p, q, co.data(), &u, &r); })) d << r; }; }
OP(c_poly_span, C) { auto c = g.curve(); double t = g.param(c.KnotVector); return [=](D& d) { int a = 0, b = 0; if (d.call([&] { a = LNLIB_POLY_get_knot_span_index(c.Degree, c.KnotVector.data(), (int)c.KnotVector.size(), t); b = LNLIB_POLY_get_knot_multiplicity(c.KnotVector.data(), (int)c.KnotVector.size(), t); })) d << a << b; }; }
static int spanOf(const NC& c, double t) { int n = (int)c.ControlPoints.size() - 1; if (t >= c.KnotVector[n + 1]) return n; int s = c.Degree; while (s < n && c.KnotVector[s + 1] <= t) s++; return s; }
OP(c_poly_basis, C) { auto c = g.curve(1, 5); double t = g.inner(c.KnotVector); int s = spanOf(c, t); return [=](D& d) { VD o(Constants::NURBSMaxDegree + 1), e(2 * (Constants::NURBSMaxDegree + 1)); if (d.call([&] { LNLIB_POLY_basis_functions(s, c.Degree, c.KnotVector.data(), (int)c.KnotVector.size(), t, o.data()); }) && d.call([&] { LNLIB_POLY_basis_functions_first_derivative(s, c.Degree, c.KnotVector.data(), (int)c.KnotVector.size(), t, e.data()); })) { arr(d, o.data(), c.Degree + 1); d << e; } }; }
OP(c_poly_basisder, C) { auto c = g.curve(1, 5); double t = g.inner(c.KnotVector); int s = spanOf(c, t), n = g.ival(1, c.Degree); OWN(double, LNLIB_POLY_basis_functions_derivatives(s, c.Degree, n, c.KnotVector.data(), (int)c.KnotVector.size(), t, &o, &rows, &cols), rows * cols); }
OP(c_poly_one, C) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); int s = spanOf(c, t); VALUE(double, LNLIB_POLY_one_basis_function(s, c.Degree, c.KnotVector.data(), (int)c.KnotVector.size(), t)); }
OP(c_poly_oneder, C) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); int s = spanOf(c, t), n = g.ival(1, c.Degree); OWN(double, LNLIB_POLY_one_basis_function_derivative(s, c.Degree, n, c.KnotVector.data(), (int)c.KnotVector.size(), t, &o, &rows), rows); }
OP(c_poly_all, C) { auto c = g.curve(1, 4); double t = g.inner(c.KnotVector); int s = spanOf(c, t); OWN(double, LNLIB_POLY_all_basis_functions(s, c.Degree, c.KnotVector.data(), (int)c.KnotVector.size(), t, &o, &rows, &cols), rows * cols); }
OP(c_poly_b2p, C) { int p = g.ival(1, 6); OWN(double, LNLIB_POLY_bezier_to_power_matrix(p, &o, &rows, &cols), rows * cols); }
OP(c_poly_p2b, C) { int p = g.ival(1, 5); return [=](D& d) { std::vector<std::vector<double>> bp, e; if (!d.call([&] { bp = Polynomials::BezierToPowerMatrix(p); e = Polynomials::PowerToBezierMatrix(p, bp); })) return; VD flat; for (auto& r : bp) for (double x : r) flat.push_back(x); const VD* ff; if (!d.ro(ff, flat)) return; double* o = nullptr; int rows = 0, cols = 0; if (d.call([&] { o = nullptr; LNLIB_POLY_power_to_bezier_matrix(p, ff->data(), &o, &rows, &cols); if (!o) throw std::bad_alloc(); })) { d.hold(); bool ok = rows == p + 1 && cols == p + 1; for (int i = 0; ok && i < rows; i++) for (int j = 0; j < cols; j++) if (memcmp(&o[i * cols + j], &e[i][j], 8)) ok = false; d.require(ok, "power_to_bezier_matrix does not return the computed matrix"); arr(d, o, rows * cols); } delete[] o; }; }
OP(c_kv, C) { auto c = g.curve(); double t = g.knotOf(c.KnotVector, c.Degree); return [=](D& d) { int n = (int)c.KnotVector.size(); int a = 0, b = 0, k = 0, k2 = 0; VD r(n), key(n), key2(n); VI val(n), val2(n); if (d.call([&] { a = LNLIB_KV_get_continuity(c.Degree, c.KnotVector.data(), n, t); b = LNLIB_KV_is_uniform(c.KnotVector.data(), n); LNLIB_KV_rescale(c.KnotVector.data(), n, 0, 2, r.data()); LNLIB_KV_get_knot_multiplicity_map(c.KnotVector.data(), n, &k, key.data(), val.data()); LNLIB_KV_get_internal_knot_multiplicity_map(c.KnotVector.data(), n, &k2, key2.data(), val2.data()); })) { d << a << b << r; arr(d, key.data(), k); arr(d, val.data(), k); arr(d, key2.data(), k2); arr(d, val2.data(), k2); } }; }
OP(c_interp, C) { int n = g.ival(5, 8); auto p = pc(g.points(n)); return [=](D& d) { auto q = p; double a = 0, b = 0; VD x(n + 8), y(n + 8), kv(4 * n), kv2(4 * n); int nx = 0, ny = 0, nk = 0, nk2 = 0; std::vector<XYZ_C> t3(n + 4), t5(n + 4); int n3 = 0, n5 = 0, ok = 0; if (d.call([&] { a = LNLIB_INTERPOLATION_get_total_chord_length(q.data(), n); b = LNLIB_INTERPOLATION_get_centripetal_length(q.data(), n); LNLIB_INTERPOLATION_get_chord_parameterization(q.data(), n, x.data(), &nx); LNLIB_INTERPOLATION_get_centripetal_parameterization(q.data(), n, y.data(), &ny); LNLIB_INTERPOLATION_average_knot_vector(3, x.data(), nx, kv.data(), &nk); LNLIB_INTERPOLATION_compute_knot_vector(3, n - 1, x.data(), nx, kv2.data(), &nk2); LNLIB_INTERPOLATION_compute_tangent_by_three_points(q.data(), n, t3.data(), &n3); ok = LNLIB_INTERPOLATION_compute_tangent_by_five_points(q.data(), n, t5.data(), &n5); })) { d.hold(); d << a << b; arr(d, x.data(), nx); arr(d, y.data(), ny); arr(d, kv.data(), nk); arr(d, kv2.data(), nk2); arr(d, t3.data(), n3); d << ok; if (ok) arr(d, t5.data(), n5); } }; }
OP(c_interp_mesh, C) { int r = g.ival(3, 5), c = g.ival(3, 5); auto p = pc2(g.grid(r, c)); double wy = g.real(1, 3); return [=](D& d) { auto q = p; VD u(r + 4), v(c + 4); int nu = 0, nv = 0, ok = 0; double w = 0; if (d.call([&] { ok = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(q.data(), r, c, u.data(), &nu, v.data(), &nv); LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation(XYZ_C{ 0, 0, 0 }, XYZ_C{ 1, wy, 0 }, XYZ_C{ 2, 0, 0 }, &w); })) { d << ok; arr(d, u.data(), nu); arr(d, v.data(), nv); d << w; } }; }
OP(c_intersect, C) { auto a = g.pt(), b = g.dir(), c = g.pt(), e = g.dir(); return [=](D& d) { double p = 0, q = 0; XYZ_C x{}, y{}; int k = 0, m = 0; if (d.call([&] { k = LNLIB_INTERSECT_compute_rays(X(a), X(b), X(c), X(e), &p, &q, &x); m = LNLIB_INTERSECT_compute_line_and_plane(X(b), X(a), X(c), X(e), &y); })) { d << k << m; if (k == 0) d << p << q << x; if (m == 0) d << y; } }; }
OP(c_project, C) { auto a = g.pt(), b = g.dir(), c = g.pt(); double r = g.real(1, 5); return [=](D& d) { XYZ_C x{}, y{}, z{}; int ok = 0; if (d.call([&] { x = LNLIB_PROJ_point_to_ray(X(a), X(b), X(c)); ok = LNLIB_PROJ_point_to_line(X(a), XYZ_C{ a.GetX() + b.GetX(), a.GetY() + b.GetY(), a.GetZ() + b.GetZ() }, X(c), &y); z = LNLIB_PROJ_stereographic(X(c), r); })) { d << x << ok; if (ok) d << y; d << z; } }; }
OP(c_bezier, C) { int p = g.ival(1, 4); auto v = pc(g.points(p + 1)); std::vector<XYZW_C> w; for (auto& q : v) w.push_back(XYZW_C{ q.x, q.y, q.z, 1.0 + 0.1 * p }); double t = g.real(0, 1); return [=](D& d) { XYZ_C a{}, b{}; XYZW_C e{}, f{}; if (d.call([&] { a = LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(p, v.data(), p + 1, t); b = LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(p, v.data(), p + 1, t); e = LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(p, w.data(), p + 1, t); f = LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(p, w.data(), p + 1, t); })) d << a << b << e << f; }; }
OP(c_beziersurf, C) { int p = g.ival(1, 3), q = g.ival(1, 3); auto v = pc2(g.grid(p + 1, q + 1)); std::vector<XYZW_C> w; for (auto& x : v) w.push_back(XYZW_C{ x.x, x.y, x.z, 1.1 }); UV uv(g.real(0, 1), g.real(0, 1)); return [=](D& d) { XYZ_C a{}; XYZW_C b{}; if (d.call([&] { a = LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(p, q, v.data(), p + 1, q + 1, U_(uv)); b = LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(p, q, w.data(), p + 1, q + 1, U_(uv)); })) d << a << b; }; }
OP(c_valid, C) { auto c = g.curve(); return [=](D& d) { int a = 0, b = 0, e = 0, f = 0; double t = 0; int n = (int)c.KnotVector.size(), m = (int)c.ControlPoints.size(); if (d.call([&] { a = LNLIB_VALID_is_valid_knotVector(c.KnotVector.data(), n); b = LNLIB_VALID_is_valid_bezier(c.Degree, m); e = LNLIB_VALID_is_valid_bspline(c.Degree, n, m); f = LNLIB_VALID_is_valid_nurbs(c.Degree, n, m); t = LNLIB_VALID_compute_curve_modify_tolerance((const XYZW_C*)c.ControlPoints.data(), m); })) d << a << b << e << f << t; }; }
OP(c_matrix, C) { Matrix4d m0 = g.matrix(); Matrix4d_C m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.m[4 * i + j] = m0.GetElement(i, j); auto ax = g.dir(), p = g.pt(); double r = g.real(-3, 3); XYZ_C xp = X(p), xa = X(ax); return [=](D& d) { if (d.call([&] {}) ) {} std::vector<Matrix4d_C> o(14); std::vector<XYZ_C> x(8); int k[5] = { 0 }; double det = 0; if (d.call([&] { o[0] = LNLIB_MATRIX_create(); o[1] = LNLIB_MATRIX_create_from_xyz(X(ax), X(p), X(ax), X(p)); o[2] = LNLIB_MATRIX_create_reflection(X(ax)); o[3] = LNLIB_MATRIX_create_reflection_by_distance(X(ax), r); o[4] = LNLIB_MATRIX_create_rotation(X(ax), r); o[5] = LNLIB_MATRIX_create_rotation_at_point(xp, xa, r); o[6] = LNLIB_MATRIX_create_translation(X(p)); o[7] = LNLIB_MATRIX_create_scale(X(p)); o[8] = LNLIB_MATRIX_set_basis_x(m, X(p)); o[9] = LNLIB_MATRIX_set_basis_y(m, X(p)); o[10] = LNLIB_MATRIX_set_basis_z(m, X(p)); o[11] = LNLIB_MATRIX_multiply(LNLIB_MATRIX_set_basis_w(m, X(p)), o[4]); o[12] = LNLIB_MATRIX_get_transpose(m); k[0] = LNLIB_MATRIX_get_inverse(m, &o[13]); x[0] = LNLIB_MATRIX_get_basis_x(m); x[1] = LNLIB_MATRIX_get_basis_y(m); x[2] = LNLIB_MATRIX_get_basis_z(m); x[3] = LNLIB_MATRIX_get_basis_w(m); x[4] = LNLIB_MATRIX_of_point(m, X(p)); x[5] = LNLIB_MATRIX_of_vector(m, X(p)); x[6] = LNLIB_MATRIX_get_scale(m); det = LNLIB_MATRIX_get_determinant(m); k[1] = LNLIB_MATRIX_is_identity(m); k[2] = LNLIB_MATRIX_has_reflection(m); k[3] = LNLIB_MATRIX_is_translation(m); })) { for (int i = 0; i < 13; i++) d << o[i]; if (k[0]) d << o[13]; for (int i = 0; i < 7; i++) d << x[i]; d << k[0] << k[1] << k[2] << k[3] << det; } }; }
OP(c_uv, C) { UV a = g.uv(3), b = g.uv(3); double s = g.real(0.5, 2); return [=](D& d) { UV_C p = U_(a), q = U_(b); double r[6] = { 0 }; UV_C o[8] = {}; int k[3] = { 0 }; if (d.call([&] { o[0] = LNLIB_UV_add(p, q); o[1] = LNLIB_UV_subtract(p, q); o[2] = LNLIB_UV_negative(p); o[3] = LNLIB_UV_normalize(q); o[4] = LNLIB_UV_scale(p, s); o[5] = LNLIB_UV_divide(p, s); o[6] = LNLIB_UV_create(s, s); o[7] = LNLIB_UV_set_u(p, s); r[0] = LNLIB_UV_length(p); r[1] = LNLIB_UV_sqr_length(p); r[2] = LNLIB_UV_dot_product(p, q); r[3] = LNLIB_UV_cross_product(p, q); r[4] = LNLIB_UV_distance(p, q); r[5] = LNLIB_UV_get_u(p) + LNLIB_UV_get_v(LNLIB_UV_set_v(p, s)); k[0] = LNLIB_UV_is_zero(p, 1e-6); k[1] = LNLIB_UV_is_unit(p, 1e-6); k[2] = LNLIB_UV_is_almost_equal(p, q, 1e-6); })) { for (auto& x : o) d << x; for (double x : r) d << x; for (int x : k) d << x; } }; }
OP(c_xyz, C) { XYZ a = g.pt(), b = g.dir(); double s = g.real(0.5, 2); return [=](D& d) { XYZ_C p = X(a), q = X(b); double r[6] = { 0 }; XYZ_C o[9] = {}; int k[3] = { 0 }; if (d.call([&] { o[0] = LNLIB_XYZ_add(p, q); o[1] = LNLIB_XYZ_subtract(p, q); o[2] = LNLIB_XYZ_negative(p); o[3] = LNLIB_XYZ_normalize(q); o[4] = LNLIB_XYZ_multiply(p, s); o[5] = LNLIB_XYZ_divide(p, s); o[6] = LNLIB_XYZ_create(s, s, s); o[7] = LNLIB_XYZ_set_x(p, s); o[8] = LNLIB_XYZ_cross_product(p, q); r[0] = LNLIB_XYZ_length(p); r[1] = LNLIB_XYZ_sqr_length(p); r[2] = LNLIB_XYZ_dot_product(p, q); r[3] = LNLIB_XYZ_angle_to(p, q, 1e-6); r[4] = LNLIB_XYZ_distance(p, q); r[5] = LNLIB_XYZ_get_x(p) + LNLIB_XYZ_get_y(LNLIB_XYZ_set_y(p, s)) + LNLIB_XYZ_get_z(LNLIB_XYZ_set_z(p, s)); k[0] = LNLIB_XYZ_is_zero(p, 1e-6); k[1] = LNLIB_XYZ_is_unit(p, 1e-6); k[2] = LNLIB_XYZ_is_almost_equal(p, q, 1e-6); })) { for (auto& x : o) d << x; for (double x : r) d << x; for (int x : k) d << x; } }; }
OP(c_xyzw, C) { XYZ a = g.pt(), b = g.pt(); double s = g.real(0.5, 2); return [=](D& d) { XYZW_C p{ a.GetX(), a.GetY(), a.GetZ(), s }, q{ b.GetX(), b.GetY(), b.GetZ(), 1 }; XYZW_C o[7] = {}; XYZ_C x{}, y{}; double r[5] = { 0 }; int k = 0; if (d.call([&] { o[0] = LNLIB_XYZW_create(1, 2, 3, s); o[1] = LNLIB_XYZW_create_from_xyz(X(a), s); o[2] = LNLIB_XYZW_set_w(p, 2); o[3] = LNLIB_XYZW_add(p, q); o[4] = LNLIB_XYZW_subtract(p, q); o[5] = LNLIB_XYZW_multiply(p, s); o[6] = LNLIB_XYZW_divide(p, s); x = LNLIB_XYZW_to_xyz(p, 1); y = LNLIB_XYZW_to_xyz(p, 0); r[0] = LNLIB_XYZW_get_wx(p); r[1] = LNLIB_XYZW_get_wy(p); r[2] = LNLIB_XYZW_get_wz(p); r[3] = LNLIB_XYZW_get_w(p); r[4] = LNLIB_XYZW_distance(p, q); k = LNLIB_XYZW_is_almost_equal(p, q, 1e-6); })) { for (auto& z : o) d << z; d << x << y << k; for (double z : r) d << z; } }; }
OP(c_randorth, C | GR_ENTROPY) { auto v = g.dir(); return [=](D& d) { XYZ_C o{}; if (d.call([&] { o = LNLIB_XYZ_create_random_orthogonal(X(v)); })) { double dot = o.x * v.GetX() + o.y * v.GetY() + o.z * v.GetZ(), len = o.x * o.x + o.y * o.y + o.z * o.z; d.require(std::isfinite(len) && len > 1e-12, "the random orthogonal vector is zero or not finite"); d.require(std::fabs(dot) <= 1e-6 * (1 + std::sqrt(len)) * v.Length(), "the random orthogonal vector is not orthogonal"); d << 1; } }; }
}
