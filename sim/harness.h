// Ops: what a simulated caller does. Inputs are generated from a seed (G), captured by value in an
// immutable closure placed in the input arena; the body calls the real library and digests what it returned (D).
#pragma once
#include "rt.h"
#include <vector>
#include <map>
#include <array>
#include <string>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <cmath>
#include <algorithm>
#include "LNObject.h"
#include "LNEnums.h"
#include "UV.h"
#include "UVW.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Matrix4d.h"

namespace sim {
using namespace LNLib;

struct D {
  OpOut* out; u64 h = 0x243F6A8885A308D3ull; u32 n = 0;
  bool dirtyMode = false; Rng drng; bool retry = true; bool failed = false; u32 oom = 0; int holdWeight = 6; bool surfaced = false; // an out-of-memory report reached the caller and was not retried
  
  int feed = 0, feedProd = 0; bool feedUsed = false, inCall = false; std::vector<double> feedBuf[3]; // C interface: 1 a copy of an earlier result is the input, 2 the earlier result itself
  bool predicateBad = false; char pred[160] = { 0 };
  void item(u64 v) { h = mix(h, v); if (n < ITEMS) out->item[n] = v; n++; }
  D& operator<<(double v) { u64 b; if (v != v) b = 0x7FF8000000000000ull; else memcpy(&b, &v, 8); item(b); return *this; }
  D& operator<<(float v) { return *this << (double)v; }
  D& operator<<(int v) { item((u64)(long long)v); return *this; }
  D& operator<<(long v) { item((u64)v); return *this; }
  D& operator<<(long long v) { item((u64)v); return *this; }
  D& operator<<(unsigned long v) { item((u64)v); return *this; }
  D& operator<<(bool v) { item(v ? 0xB001 : 0xB000); return *this; }
  D& operator<<(const UV& p) { return *this << p.GetU() << p.GetV(); }
  D& operator<<(const UVW& p) { return *this << p.GetU() << p.GetV() << p.GetW(); }
  D& operator<<(const XYZ& p) { return *this << p.GetX() << p.GetY() << p.GetZ(); }
  D& operator<<(const XYZW& p) { return *this << p.GetWX() << p.GetWY() << p.GetWZ() << p.GetW(); }
  D& operator<<(const Matrix4d& m) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) *this << m.GetElement(i, j); return *this; }
  template <class T> D& operator<<(const std::vector<T>& v) { item(0x5EC000000ull + v.size()); for (const auto& x : v) *this << x; return *this; }
  template <class A, class B> D& operator<<(const std::map<A, B>& m) { item(0x3A9000000ull + m.size()); for (auto& x : m) *this << x.first << x.second; return *this; }
  template <class T> D& operator<<(const LN_BezierCurve<T>& c) { return *this << c.Degree << c.ControlPoints; }
  template <class T> D& operator<<(const LN_BsplineCurve<T>& c) { return *this << c.Degree << c.KnotVector << c.ControlPoints; }
  template <class T> D& operator<<(const LN_BsplineSurface<T>& c) { return *this << c.DegreeU << c.DegreeV << c.KnotVectorU << c.KnotVectorV << c.ControlPoints; }
  template <class T> D& operator<<(const LN_BsplineVolume<T>& c) { return *this << c.DegreeU << c.DegreeV << c.DegreeW << c.KnotVectorU << c.KnotVectorV << c.KnotVectorW << c.ControlPoints; }
  D& operator<<(const LN_Mesh& m) { return *this << m.Vertices << m.Faces << m.UVs << m.UVIndices << m.Normals << m.NormalIndices; }
  D& operator<<(const LN_ArcInfo& a) { return *this << a.Radius << a.Center << a.IsCircle; }
  void str(const char* s) { u64 k = 7; for (; *s; s++) k = mix(k, (u8)*s); item(k); }

  // ---- previous contents of output objects
  void dirty(double& v) { if (dirtyMode) v = drng.unit() * 1e3 - 500; }
  void dirty(int& v) { if (dirtyMode) v = drng.range(-3, 9); }
  void dirty(bool& v) { if (dirtyMode) v = drng.below(2); }
  void dirty(UV& p) { if (dirtyMode) p = UV(drng.unit() * 9 - 3, drng.unit() * 9); }
  void dirty(UVW& p) { if (dirtyMode) p = UVW(drng.unit() * 9 - 3, drng.unit() * 9, drng.unit()); }
  void dirty(XYZ& p) { if (dirtyMode) p = XYZ(drng.unit() * 90 - 30, drng.unit() * 90, drng.unit() * 7); }
  void dirty(XYZW& p) { if (dirtyMode) p = XYZW(drng.unit() * 90 - 30, drng.unit() * 90, drng.unit() * 7, drng.unit() * 3 + 0.1); }
  void dirty(Matrix4d& m) { if (dirtyMode) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, drng.unit() * 4); }
  template <class T> void dirty(std::vector<T>& v) { if (!dirtyMode) return; int k = drng.chance(0.2) ? 0 : drng.range(1, drng.chance(0.1) ? 40 : 7); if (drng.chance(0.5)) v.reserve(drng.range(0, 64)); v.clear(); for (int i = 0; i < k; i++) { T x{}; dirty(x); v.push_back(std::move(x)); } }
  template <class A, class B> void dirty(std::map<A, B>& m) { if (!dirtyMode) return; for (int i = 0; i < 3; i++) { A a{}; B b{}; dirty(a); dirty(b); m[a] = b; } }
  template <class T> void dirty(LN_BezierCurve<T>& c) { if (dirtyMode) { dirty(c.Degree); dirty(c.ControlPoints); } }
  template <class T> void dirty(LN_BsplineCurve<T>& c) { if (dirtyMode) { c.Degree = drng.range(1, 5); dirty(c.KnotVector); dirty(c.ControlPoints); } }
  template <class T> void dirty(LN_BsplineSurface<T>& c) { if (dirtyMode) { c.DegreeU = drng.range(1, 5); c.DegreeV = drng.range(1, 5); dirty(c.KnotVectorU); dirty(c.KnotVectorV); dirty(c.ControlPoints); } else { c.DegreeU = c.DegreeV = 0; } }
  template <class T> void dirty(LN_BsplineVolume<T>& c) { if (dirtyMode) { c.DegreeU = drng.range(1, 5); c.DegreeV = drng.range(1, 5); c.DegreeW = drng.range(1, 4); dirty(c.KnotVectorU); dirty(c.KnotVectorV); dirty(c.KnotVectorW); dirty(c.ControlPoints); } else { c.DegreeU = c.DegreeV = c.DegreeW = 0; } }
  void dirty(LN_ArcInfo& a) { if (dirtyMode) { dirty(a.Radius); dirty(a.Center); dirty(a.IsCircle); } }
  template <class T> void dirtyArr(T* p, int k) { if (dirtyMode) for (int i = 0; i < k; i++) dirty(p[i]); }

  void begin(); void end();            // entering / leaving library code
  void threw(const char* type, const char* what);
  bool oomCaught(bool injectedFired);  // returns true when the call must be retried
  u32 firedNow();
  // one library call as the caller makes it; true when it returned normally
  template <class F> bool call(F&& f) {
    for (int attempt = 0;; attempt++) {
      u32 before = firedNow();
      begin();
      try { f(); end(); return true; }
      catch (const std::bad_alloc&) { end(); if (oomCaught(firedNow() != before)) { if (attempt > 3) return false; continue; } return false; }
      catch (const std::out_of_range& e) { end(); threw("out_of_range", e.what()); return false; }
      catch (const std::invalid_argument& e) { end(); threw("invalid_argument", e.what()); return false; }
      catch (const std::length_error& e) { end(); threw("length_error", e.what()); return false; }
      catch (const std::exception& e) { end(); threw("exception", e.what()); return false; }
      catch (int v) { end(); threw("int", ""); item((u64)v); return false; }
      catch (...) { end(); threw("unknown", ""); return false; }
    }
  }
  // an intermediate result that the next call takes as a read-only input: kept where the library must not write
  std::vector<std::shared_ptr<const void>> kept;
  template <class T> bool ro(const T*& q, const T& x) { rt_input_target(true); std::shared_ptr<const T> p = std::make_shared<const T>(x); rt_input_target(false); q = p.get(); kept.push_back(p); return true; }
  void hold() { rt_yield(holdWeight); } // others may run between a call and the use of its result
  void agrees(bool ok, const char* msg) { if (!feed) require(ok, msg); }
  void require(bool ok, const char* msg) { if (!ok && !predicateBad && !surfaced) { predicateBad = true; strncpy(pred, msg, sizeof pred - 1); } }
};

typedef std::function<void(D&)> Body;

struct G {
  Rng r; int mut; int cnt = 0; bool bad; bool usedBad = false; bool big, odd; // big: larger shapes and higher degrees; odd: degenerate and extreme but well-formed shapes
  G(u64 seed, int mutIndex, bool allowBad, int size = 0) : r(seed), mut(mutIndex), bad(allowBad), big(size == 1), odd(size == 2) {}
  bool chance(double p) { return r.chance(p); }
  int pick(int n) { return (int)r.below(n); }
  int ival(int lo, int hi) { int v = r.range(lo, hi); ++cnt; if (cnt == mut && hi > lo) { v = v + 1 > hi ? lo : v + 1; } return v; }
  double real(double lo, double hi) { double u = r.unit(); double v; int k = (int)(r.next() & 7); if (k == 0) v = lo + (hi - lo) * 0.5; else if (k == 1) v = std::floor(lo + (hi - lo) * u + 0.5); else v = lo + (hi - lo) * u; if (v < lo) v = lo; if (v > hi) v = hi; ++cnt; if (cnt == mut) { double d = (hi - lo) * 0.083 ; v = v + d <= hi ? v + d : v - d; } return v; }
  double strict(double lo, double hi) { double u = 0.06 + 0.88 * r.unit(); double v = lo + (hi - lo) * u; ++cnt; if (cnt == mut) { double d = (hi - lo) * 0.021; v = u < 0.5 ? v + d : v - d; } return v; }
  bool flag() { return ival(0, 1) != 0; }
  bool badNow(double p = 0.12) { bool b = chance(p); if (b && bad) { usedBad = true; return true; } return false; }
  XYZ pt(double s = 10) { double x = real(-s, s), y = real(-s, s), z = real(-s, s); return XYZ(x, y, z); }
  XYZ dir() { static const double t[6][3] = { {1,0,0},{0,1,0},{0,0,1},{0,0,-1},{1,1,0},{0,1,1} }; if (chance(0.4)) { int k = pick(6); double e = real(0.5, 2.0); return XYZ(t[k][0] * e, t[k][1] * e, t[k][2] * e); } for (;;) { double x = real(-1, 1), y = real(-1, 1), z = real(-1, 1); if (x * x + y * y + z * z > 0.05) return XYZ(x, y, z); } }
  UV uv(double s = 1) { double a = real(-s, s), b = real(-s, s); return UV(a, b); }
  std::vector<XYZ> points(int n, double s = 10);   // polyline-like, distinct
  std::vector<std::vector<XYZ>> grid(int rows, int cols);
  std::vector<double> knots(int degree, int n, int style = -1);
  LN_NurbsCurve curve(int minDeg = 1, int maxDeg = 7, int style = -1);
  LN_NurbsCurve curveN(int degree, int n, bool rational, int kstyle = 0);
  LN_NurbsCurve circle(double r, bool full = true); LN_NurbsCurve line(); LN_NurbsCurve planar(int degree, int n); LN_NurbsCurve uniformOpen(); LN_NurbsCurve unitStart(int p); LN_NurbsCurve closedUniform();
  LN_NurbsSurface surface(int minDeg = 1, int maxDeg = 4); LN_NurbsSurface surfaceN(int pu, int pv, int nu, int nv, bool rational); LN_NurbsSurface cylinder();
  LN_NurbsVolume volume(int maxDeg = 3);
  double param(const std::vector<double>& U);      // anywhere in the domain (ends, knots, interior), sometimes invalid
  double inner(const std::vector<double>& U);      // strictly inside
  double knotOf(const std::vector<double>& U, int degree); // an interior knot if any
  UV uvOn(const LN_NurbsSurface& s);
  Matrix4d matrix();
  std::vector<double> reals(int n, double lo, double hi) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(real(lo, hi)); return v; }
  std::vector<std::vector<double>> mat(int r_, int c_, double lo = -3, double hi = 3) { std::vector<std::vector<double>> m; for (int i = 0; i < r_; i++) m.push_back(reals(c_, lo, hi)); return m; }
  IntegratorType integ() { return (IntegratorType)ival(0, 2); }
};

enum Group { GR_CURVE = 1, GR_SURFACE = 2, GR_VOLUME = 4, GR_ALGO = 8, GR_MATH = 16, GR_CAPI = 32, GR_VORONOI = 64, GR_OCTREE = 128, GR_CALLBACK = 256, GR_ENTROPY = 512 };
struct OpDef { const char* name; int group; Body (*make)(G&); int weight; };
std::vector<OpDef>& ops();
struct Reg { Reg(const char* n, int g, Body (*m)(G&), int w = 10) { ops().push_back(OpDef{ n, g, m, w }); } };
#define OP(name, group) static Body name##_mk(G& g); static Reg name##_reg(#name, group, name##_mk); static Body name##_mk(G& g)
#define OPW(name, group, w) static Body name##_mk(G& g); static Reg name##_reg(#name, group, name##_mk, w); static Body name##_mk(G& g)
// common shapes
#define RET(T, expr) return [=](D& d) { T r{}; if (d.call([&] { r = expr; })) { d.hold(); d << r; } }
}
// output-parameter shapes
#define OUTV(T, stmt) return [=](D& d) { T r{}; d.dirty(r); if (d.call([&] { stmt; })) { d.hold(); d << r; } }
#define OUTB(T, stmt) return [=](D& d) { T r{}; d.dirty(r); bool ok = false; if (d.call([&] { ok = stmt; })) { d.hold(); d << ok; if (ok) d << r; } }
#define OUTR(R, T, stmt) return [=](D& d) { T r{}; d.dirty(r); R ret{}; if (d.call([&] { ret = stmt; })) { d.hold(); d << ret << r; } }
#define VOIDCALL(stmt) return [=](D& d) { if (d.call([&] { stmt; })) d << 1; }
