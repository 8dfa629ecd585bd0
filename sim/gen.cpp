#include "harness.h"
#include <algorithm>
namespace sim {
std::vector<OpDef>& ops() { static std::vector<OpDef>* v = new std::vector<OpDef>; return *v; }

std::vector<XYZ> G::points(int n, double s) {
  std::vector<XYZ> v; int style = pick(4); XYZ o = pt(3); double ang = 0;
  for (int i = 0; i < n; i++) {
    if (style == 0) v.push_back(XYZ(o.GetX() + i * real(0.6, 1.4) * (i ? 1 : 0) + i, o.GetY() + real(-s, s) * 0.3, o.GetZ() + real(-s, s) * 0.2));
    else if (style == 1) { ang += real(0.15, 0.4); v.push_back(XYZ(5 * std::cos(ang), 5 * std::sin(ang), 0)); }
    else if (style == 2) { ang += real(0.2, 0.5); v.push_back(XYZ(4 * std::cos(ang), 4 * std::sin(ang), 0.3 * i)); }
    else { v.push_back(XYZ(2.0 * i, real(-s, s) * 0.3, 0)); }
  }
  if (n > 2 && !odd && chance(0.1)) { int k = pick(4); // collinear runs, neighbouring points that coincide, closed polygons
    if (k == 0) for (int i = 1; i < n; i++) { double t = (double)i / (n - 1); v[i] = v[0] + (v[n - 1] - v[0]) * t; }
    else if (k == 1) { int i = 1 + pick(n - 2); v[i + 1] = v[i]; }
    else if (k == 2) { int i = pick(n - 2); v[i + 1] = (v[i] + v[i + 2]) / 2; }
    else v[n - 1] = v[0]; }
  if (odd && n > 1) { int k = pick(5); // degenerate: coincident, collinear, all equal, far away, tiny
    if (k == 0) { int i = 1 + pick(n - 1); v[i] = v[i - 1]; if (chance(0.4) && i + 1 < n) v[i + 1] = v[i]; } else if (k == 1) { for (int i = 1; i < n; i++) { double t = (double)i / (n - 1); v[i] = v[0] + (v[n - 1] - v[0]) * t; } } else if (k == 2) { for (auto& q : v) q = v[0]; } else if (k == 3) { for (auto& q : v) q = q + XYZ(1e6, -1e6, 3e5); } else for (auto& q : v) q = q * 1e-4; }
  return v;
}
std::vector<std::vector<XYZ>> G::grid(int rows, int cols) {
  std::vector<std::vector<XYZ>> g(rows); double sx = real(1, 3), sy = real(1, 3);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) g[i].push_back(XYZ(i * sx + real(-0.2, 0.2), j * sy + real(-0.2, 0.2), real(-2, 2)));
  if (odd && rows > 1 && cols > 1) { int k = pick(5); if (k == 0) for (int i = 0; i < rows; i++) g[i][1] = g[i][0]; else if (k == 1) for (int j = 0; j < cols; j++) g[rows - 1][j] = g[rows - 1][0]; else if (k == 2) for (auto& r_ : g) for (auto& q : r_) q = XYZ(q.GetX(), q.GetY(), 0); else if (k == 3) for (auto& r_ : g) for (auto& q : r_) q = g[0][0]; else for (auto& r_ : g) for (auto& q : r_) q = q * 1e-4; }
  return g;
}
std::vector<double> G::knots(int p, int n, int style) { // n control points
  double lo = 0, hi = 1; if (style < 0) style = pick(6); int dom = pick(6); if (dom == 0) hi = 3; else if (dom == 1) { lo = -1; hi = 2; } else if (dom == 2) hi = n - p;
  std::vector<double> U(p + 1, lo); int m = n - p - 1; std::vector<double> in;
  if (style == 1 || style == 2) { for (int i = 1; i <= m; i++) in.push_back(lo + (hi - lo) * i / (m + 1)); }
  else if (style == 3 && m > 1) { // multiplicities
    int left = m; int k = 0; int distinct = std::max(1, m / 2); while (left > 0 && k < distinct) { double v = lo + (hi - lo) * (k + 0.2 + 0.6 * r.unit()) / distinct; int mult = std::min(left, 1 + pick(std::max(1, p))); if (k == distinct - 1) mult = std::min(left, p); if (mult < 1) mult = 1; for (int q = 0; q < mult; q++) in.push_back(v); left -= mult; k++; }
    int miss = m - (int)in.size(); double from = in.empty() ? lo : in.back(); for (int q = 1; q <= miss; q++) in.push_back(from + (hi - from) * q / (miss + 1)); // never more than p equal interior knots
  } else { for (int i = 0; i < m; i++) { double u = (i + 0.15 + 0.7 * r.unit()) / m; ++cnt; if (cnt == mut) u = (i + 0.5) / m + 0.07 / m; in.push_back(lo + (hi - lo) * u); } }
  std::sort(in.begin(), in.end()); U.insert(U.end(), in.begin(), in.end()); U.insert(U.end(), p + 1, hi);
  if (odd) { int k = pick(4); if (k == 0) for (auto& u : U) u *= 1e-7; else if (k == 1) for (auto& u : U) u = u * 1e4 + 1e5; else if (k == 2) for (size_t i = p + 1; i + p + 1 < U.size(); i++) { double nx = U[i] + 1e-9; if (nx < hi) U[i] = nx; } std::sort(U.begin(), U.end()); }
  return U;
}
LN_NurbsCurve G::curveN(int p, int n, bool rational, int ks) {
  LN_NurbsCurve c; c.Degree = p; c.KnotVector = knots(p, n, ks);
  std::vector<XYZ> P = points(n); for (auto& q : P) { double w = rational ? (odd ? (chance(0.5) ? 1e-3 : 1e3) * real(0.5, 2.0) : real(0.5, 2.0)) : 1.0; c.ControlPoints.push_back(XYZW(q, w)); }
  return c;
}
LN_NurbsCurve G::planar(int p, int n) { LN_NurbsCurve c; c.Degree = p; c.KnotVector = knots(p, n, 0); double x = 0; for (int i = 0; i < n; i++) { x += real(0.6, 2); c.ControlPoints.push_back(XYZW(XYZ(x, real(-3, 3), 0), 1)); } return c; }
LN_NurbsCurve G::circle(double R, bool full) {
  LN_NurbsCurve c; c.Degree = 2; double w = std::sqrt(2.0) / 2; int q = full ? 4 : 1 + pick(3); static const double X[9] = { 1,1,0,-1,-1,-1,0,1,1 }, Y[9] = { 0,1,1,1,0,-1,-1,-1,0 };
  XYZ o = pt(2); for (int i = 0; i <= 2 * q; i++) c.ControlPoints.push_back(XYZW(XYZ(o.GetX() + R * X[i], o.GetY() + R * Y[i], o.GetZ()), i % 2 ? w : 1.0));
  c.KnotVector = { 0,0,0 }; for (int i = 1; i < q; i++) { c.KnotVector.push_back((double)i / q); c.KnotVector.push_back((double)i / q); } for (int i = 0; i < 3; i++) c.KnotVector.push_back(1); return c;
}
LN_NurbsCurve G::line() { LN_NurbsCurve c; c.Degree = 1; c.KnotVector = { 0,0,1,1 }; XYZ a = pt(), b = pt(); b.SetX(b.GetX() + 21); c.ControlPoints = { XYZW(a,1), XYZW(b,1) }; if (chance(0.25)) { double L = a.Distance(b); c.KnotVector = { 0,0,L,L }; } return c; }
LN_NurbsCurve G::unitStart(int p) { LN_NurbsCurve c; c.Degree = p; c.KnotVector.assign(p + 1, 0.0); c.KnotVector.insert(c.KnotVector.end(), p + 1, 1.0); std::vector<XYZ> P = points(p + 1); XYZ d = dir(); P[1] = P[0] + d.Normalize() / (double)p; for (auto& q : P) c.ControlPoints.push_back(XYZW(q, 1)); return c; }
LN_NurbsCurve G::closedUniform() { // unclamped, wrapped around: closed and periodic
  int p = 2 + pick(2), m = p + 2 + pick(4); LN_NurbsCurve c; c.Degree = p; std::vector<XYZ> P; for (int i = 0; i < m; i++) P.push_back(XYZ(real(2, 6) * std::cos(6.2831853 * i / m), real(2, 6) * std::sin(6.2831853 * i / m), real(-1, 1))); for (int i = 0; i < m + p; i++) c.ControlPoints.push_back(XYZW(P[i % m], 1)); for (int i = 0; i < m + 2 * p + 1; i++) c.KnotVector.push_back(i); return c; }
LN_NurbsCurve G::uniformOpen() { int p = 2 + pick(2); int n = p + 3 + pick(4); LN_NurbsCurve c; c.Degree = p; for (int i = 0; i < n + p + 1; i++) c.KnotVector.push_back(i); for (auto& q : points(n)) c.ControlPoints.push_back(XYZW(q, 1)); return c; }
LN_NurbsCurve G::curve(int mn, int mx, int style) {
  int k = style >= 0 ? style : pick(12);
  if (k == 0 && mn <= 2 && mx >= 2) return circle(real(0.5, 5), flag());
  if (k == 1 && mn <= 1) return line();
  int p = mn + pick(mx - mn + 1); if (p > 4 && chance(0.5)) p = std::max(mn, 3); if (big && mx >= 7 && chance(0.4)) p = 8 + pick(5);
  int n = p + 1 + pick(k == 2 ? 1 : big ? (chance(0.3) ? 60 : 14) : 7);
  if (k == 3) { LN_NurbsCurve c = planar(p, n); return c; }
  LN_NurbsCurve c = curveN(p, n, chance(0.5), -1);
  if (k == 4 && n > 2) c.ControlPoints.back() = c.ControlPoints.front();
  if (k == 5 && p >= 2 && chance(0.3)) return unitStart(p);
  return c;
}
LN_NurbsSurface G::surfaceN(int pu, int pv, int nu, int nv, bool rational) {
  LN_NurbsSurface s; s.DegreeU = pu; s.DegreeV = pv; s.KnotVectorU = knots(pu, nu); s.KnotVectorV = knots(pv, nv); auto gr = grid(nu, nv);
  for (auto& row : gr) { std::vector<XYZW> rr; for (auto& q : row) rr.push_back(XYZW(q, rational ? real(0.5, 2) : 1.0)); s.ControlPoints.push_back(rr); }
  return s;
}
LN_NurbsSurface G::cylinder() { LN_NurbsSurface s; LN_NurbsCurve c = circle(real(1, 4), flag()); double h = real(1, 6); s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = c.KnotVector; s.KnotVectorV = { 0,0,1,1 }; for (auto& q : c.ControlPoints) { XYZ a = q.ToXYZ(true); s.ControlPoints.push_back({ q, XYZW(XYZ(a.GetX(), a.GetY(), a.GetZ() + h), q.GetW()) }); } return s; }
LN_NurbsSurface G::surface(int mn, int mx) {
  if (chance(0.12) && mn <= 1 && mx >= 2) return cylinder();
  int pu = mn + pick(mx - mn + 1), pv = mn + pick(mx - mn + 1); LN_NurbsSurface s = surfaceN(pu, pv, pu + 1 + pick(big ? 9 : 4), pv + 1 + pick(big ? 9 : 4), chance(0.5));
  if (chance(0.1)) { if (flag()) s.ControlPoints.back() = s.ControlPoints.front(); else for (auto& row : s.ControlPoints) row.back() = row.front(); } // closed in one direction
  else if (chance(0.04)) { if (flag()) for (auto& q : s.ControlPoints.back()) q = s.ControlPoints.back()[0]; else for (auto& row : s.ControlPoints) row[0] = s.ControlPoints[0][0]; } // a pole
  return s;
}
LN_NurbsVolume G::volume(int mx) {
  LN_NurbsVolume v; v.DegreeU = 1 + pick(mx); v.DegreeV = 1 + pick(mx); v.DegreeW = 1 + pick(mx); int a = v.DegreeU + 1 + pick(3), b = v.DegreeV + 1 + pick(3), c = v.DegreeW + 1 + pick(3);
  v.KnotVectorU = knots(v.DegreeU, a); v.KnotVectorV = knots(v.DegreeV, b); v.KnotVectorW = knots(v.DegreeW, c); bool rat = chance(0.4);
  for (int i = 0; i < a; i++) { std::vector<std::vector<XYZW>> pl; for (int j = 0; j < b; j++) { std::vector<XYZW> ro; for (int k = 0; k < c; k++) ro.push_back(XYZW(XYZ(i + real(-0.2, 0.2), j + real(-0.2, 0.2), k + real(-0.2, 0.2)), rat ? real(0.6, 1.8) : 1.0)); pl.push_back(ro); } v.ControlPoints.push_back(pl); }
  return v;
}
double G::inner(const std::vector<double>& U) { return strict(U.front(), U.back()); }
double G::param(const std::vector<double>& U) {
  double lo = U.front(), hi = U.back(); if (badNow()) return chance(0.5) ? lo - 0.7 : hi + 1.3;
  switch (pick(9)) { case 0: return lo; case 1: return hi; case 2: return U[pick((int)U.size())]; case 3: { double k = U[pick((int)U.size())], e = chance(0.5) ? 5e-7 : 3e-9; if (chance(0.5)) e = -e; k += e * (hi - lo); return k < lo || k > hi ? lo : k; } /* just beside a knot */ default: return strict(lo, hi); }
}
double G::knotOf(const std::vector<double>& U, int) { std::vector<double> in; for (double u : U) if (u > U.front() && u < U.back()) in.push_back(u); if (in.empty()) return inner(U); return in[pick((int)in.size())]; }
UV G::uvOn(const LN_NurbsSurface& s) { double a = param(s.KnotVectorU), b = param(s.KnotVectorV); return UV(a, b); }
Matrix4d G::matrix() {
  switch (pick(6)) { case 0: return Matrix4d::CreateTranslation(pt()); case 1: return Matrix4d::CreateRotation(dir(), real(-3, 3)); case 2: return Matrix4d::CreateScale(XYZ(real(0.5, 2), real(0.5, 2), real(0.5, 2))); case 3: return Matrix4d::CreateReflection(dir()); case 4: return Matrix4d();
  default: return Matrix4d(real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), real(-2, 2), 0, 0, 0, 1); }
}
}
