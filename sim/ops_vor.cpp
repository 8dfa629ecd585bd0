// Voronoi generator life cycles and octree construction / concurrent queries.
#include "harness.h"
#include "Voronoi.h"
#include "Octree.h"
#include <memory>
using namespace sim;

namespace {
struct Round { std::vector<float> x, y; float x0, x1, y0, y1, dist; bool vor, del, info, resetAfter, partial; int reads; };
struct Diagram { bool ok = false; std::vector<std::vector<float>> edges, del, verts, pairs; std::vector<std::vector<int>> tri; };

Round makeRound(G& g) {
  Round r; int n = g.chance(0.12) ? g.ival(1, 3) : g.chance(0.1) ? g.ival(15, g.big ? 120 : 40) : g.ival(4, 14); bool grid = g.chance(0.2); bool exact = g.chance(0.3);
  for (int i = 0; i < n; i++) { if (grid) { r.x.push_back((float)(i % 4)); r.y.push_back((float)(i / 4) + (exact ? 0.0f : (float)g.real(0, 0.2))); } else { r.x.push_back((float)g.real(-10, 10) + 0.013f * i); r.y.push_back((float)g.real(-10, 10) + 0.017f * i); } }
  r.x0 = (float)g.real(-14, -6); r.x1 = (float)g.real(6, 14); r.y0 = (float)g.real(-14, -6); r.y1 = (float)g.real(6, 14); if (g.chance(0.15)) std::swap(r.x0, r.x1);
  r.dist = g.chance(0.7) ? 0.0f : (float)g.real(0, 3); r.vor = !g.chance(0.15); r.del = g.flag(); r.info = !g.chance(0.3); r.resetAfter = g.chance(0.25); r.partial = g.chance(0.25); r.reads = g.ival(1, 4);
  return r;
}
void readOut(VoronoiDiagramGenerator& v, const Round& r, Diagram& o) {
  float a = 0, b = 0, c = 0, e = 0;
  v.resetIterator(); while (v.getNext(a, b, c, e)) o.edges.push_back({ a, b, c, e });
  v.resetDelaunayEdgesIterator(); while (v.getNextDelaunay(a, b, c, e)) o.del.push_back({ a, b, c, e });
  v.resetVerticesIterator(); while (v.getNextVertex(a, b)) o.verts.push_back({ a, b });
  v.resetVertexPairIterator(); while (v.getNextVertexPair(a, b, c, e)) o.pairs.push_back({ a, b, c, e });
  o.tri = v.getTriangles();
}
bool same(const Diagram& a, const Diagram& b) { return a.ok == b.ok && a.edges == b.edges && a.del == b.del && a.verts == b.verts && a.pairs == b.pairs && a.tri == b.tri; }
void dig(D& d, const Diagram& x) { d << x.ok << x.edges << x.del << x.verts << x.pairs << x.tri; }
bool gen(VoronoiDiagramGenerator& v, const Round& r) {
  std::vector<float> x = r.x, y = r.y; v.setGenerateVoronoi(r.vor); v.setGenerateDelaunay(r.del);
  return v.generateVoronoi(x.data(), y.data(), (int)x.size(), r.x0, r.x1, r.y0, r.y1, r.dist, r.info);
}
// a failed generation is retried by the caller on the same generator: throwing bad_alloc and returning false are both reports
bool genReport(VoronoiDiagramGenerator& v, const Round& r) { bool ok = gen(v, r); if (!ok) throw std::bad_alloc(); return ok; }
Diagram fresh(D& d, const Round& r) { Diagram o; d.call([&] { o = Diagram(); VoronoiDiagramGenerator v; o.ok = genReport(v, r); readOut(v, r, o); }); return o; }

// one generator, a history of generations of different sizes and options with reads, partial reads and resets in between
Body historyOf(G& g, int lo, int hi) {
  std::vector<Round> rs; int k = g.ival(lo, hi); for (int i = 0; i < k; i++) rs.push_back(makeRound(g));
  return [=](D& d) {
    std::vector<Diagram> expect; for (auto& r : rs) expect.push_back(fresh(d, r));
    VoronoiDiagramGenerator* v = nullptr; if (!d.call([&] { v = new VoronoiDiagramGenerator(); })) return;
    for (size_t i = 0; i < rs.size(); i++) {
      Diagram o; bool ok = d.call([&] { o.ok = genReport(*v, rs[i]); }); if (!ok) break; d.hold();
      if (rs[i].partial) d.call([&] { float a, b, c, e; v->resetIterator(); v->resetDelaunayEdgesIterator(); v->resetVerticesIterator(); for (int j = 0; j < rs[i].reads; j++) { v->getNext(a, b, c, e); v->getNextDelaunay(a, b, c, e); v->getNextVertex(a, b); } });
      if (!d.call([&] { Diagram t; t.ok = o.ok; readOut(*v, rs[i], t); o = t; }) && !d.failed) break;
      // vertex pairs are consumed by reading, so a reading that ran out of memory half way may not repeat
      if (d.oom == 0) d.require(same(o, expect[i]), "a reused diagram generator gives a different diagram than a fresh one for the same sites"); else { Diagram a = o, b = expect[i]; a.pairs.clear(); b.pairs.clear(); d.require(same(a, b), "after an out-of-memory report the generator gives a different diagram than a fresh one"); o.pairs = expect[i].pairs; }
      dig(d, o);
      if (rs[i].resetAfter) { d.call([&] { v->reset(); }); d.call([&] { float a, b, c, e; v->resetIterator(); v->resetDelaunayEdgesIterator(); v->resetVerticesIterator(); v->resetVertexPairIterator(); int n = 0; while (n < 100 && (v->getNext(a, b, c, e) || v->getNextDelaunay(a, b, c, e) || v->getNextVertex(a, b) || v->getNextVertexPair(a, b, c, e))) n++; d.require(n == 0 && v->getTriangles().empty(), "a generator still yields data after reset"); }); }
    }
    d.call([&] { delete v; v = nullptr; });
  };
}
}
OPW(vor_once, GR_VORONOI, 10) { Round r = makeRound(g); return [=](D& d) { Diagram o = fresh(d, r); d.hold(); dig(d, o); }; }
// more vertices than the generator's first tables hold
OPW(vor_huge, GR_VORONOI, 2) { Round r; int n = g.chance(0.07) ? g.ival(2100, 2400) : g.ival(60, 250); Rng q(g.r.next()); for (int i = 0; i < n; i++) { r.x.push_back((float)(q.unit() * 100 - 50)); r.y.push_back((float)(q.unit() * 100 - 50)); } r.x0 = r.y0 = -50; r.x1 = r.y1 = 50; r.dist = 0; r.vor = true; r.del = g.flag(); r.info = true; r.resetAfter = r.partial = false; r.reads = 0; Round small = makeRound(g); bool first = g.flag(); return [=](D& d) { Diagram o, e, b; d.call([&] { o = e = Diagram(); VoronoiDiagramGenerator v; if (first) { genReport(v, small); readOut(v, small, e); e = Diagram(); } o.ok = genReport(v, r); readOut(v, r, o); e.ok = genReport(v, small); readOut(v, small, e); }); d.hold(); b = fresh(d, small); if (d.oom == 0) d.require(same(e, b), "after a large diagram the generator gives a different diagram than a fresh one"); dig(d, o); dig(d, e); }; }
OPW(vor_history2, GR_VORONOI, 14) { return historyOf(g, 2, 3); }
OPW(vor_history5, GR_VORONOI, 8) { return historyOf(g, 3, 6); }
OPW(vor_unused, GR_VORONOI, 3) { bool useReset = g.flag(); bool twice = g.flag(); return [=](D& d) { int n = 0; d.call([&] { n = 0; VoronoiDiagramGenerator v; if (useReset) v.reset(); if (twice) v.reset(); float a, b, c, e; v.resetIterator(); while (v.getNext(a, b, c, e)) n++; v.resetVerticesIterator(); while (v.getNextVertex(a, b)) n++; v.resetVertexPairIterator(); while (v.getNextVertexPair(a, b, c, e)) n++; n += (int)v.getTriangles().size(); }); d << n; d.require(n == 0, "an unused generator yields data"); }; }
// iterators left alone by the caller across a regeneration must not touch the old diagram
OPW(vor_stale_iter, GR_VORONOI, 5) { Round a = makeRound(g), b = makeRound(g); int k = g.ival(0, 3); bool viaReset = g.flag(); return [=](D& d) { std::vector<std::vector<float>> seen; d.call([&] { seen.clear(); VoronoiDiagramGenerator v; genReport(v, a); float p, q, s, t; v.resetIterator(); v.resetDelaunayEdgesIterator(); for (int i = 0; i < k; i++) { v.getNext(p, q, s, t); v.getNextDelaunay(p, q, s, t); } if (viaReset) v.reset(); else genReport(v, b); int guard = 0; while (guard++ < 500 && v.getNext(p, q, s, t)) seen.push_back({ p, q, s, t }); while (guard++ < 900 && v.getNextDelaunay(p, q, s, t)) seen.push_back({ p, q, s, t }); }); d << seen; }; }
OPW(vor_two_alive, GR_VORONOI, 8) { Round a = makeRound(g), b = makeRound(g); return [=](D& d) {
  Diagram ea = fresh(d, a), eb = fresh(d, b), oa, ob;
  d.call([&] { oa = ob = Diagram(); VoronoiDiagramGenerator va, vb; oa.ok = genReport(va, a); ob.ok = genReport(vb, b); readOut(va, a, oa); readOut(vb, b, ob); });
  d.require(same(oa, ea) && same(ob, eb), "two live generators disturb one another"); dig(d, oa); dig(d, ob); }; }

// ------------------------------------------------------------------ octree
namespace {
struct Tree { Octant* root = nullptr; std::vector<XYZ> db; ~Tree() { delete root; } };
void digTree(D& d, Octant* o, int depth) { if (!o || depth > 12) { d << 0; return; } d << o->Center << o->Extent << o->IsLeaf << o->PointIndices << (int)o->Children.size(); for (auto* c : o->Children) digTree(d, c, depth + 1); }
std::vector<XYZ> cloud(G& g) { std::vector<XYZ> p; int n = g.chance(0.1) ? g.ival(0, 1) : g.chance(0.08) ? g.ival(60, g.big ? 400 : 150) : g.ival(4, 40); bool dup = g.chance(0.2); int lay = g.pick(8); if (lay == 0) { for (int i = 0; i < n; i++) p.push_back(XYZ(i % 3, i / 3 % 3, i / 9)); return p; } if (lay == 1) { XYZ o = g.pt(), e = g.dir(); for (int i = 0; i < n; i++) p.push_back(o + (double)i * e); return p; } for (int i = 0; i < n; i++) p.push_back(dup && i % 3 == 2 ? p[i - 1] : g.pt()); return p; }
struct Q { XYZ q; double r; int k; int kind; };
std::vector<Q> queries(G& g, int n) { std::vector<Q> v; for (int i = 0; i < n; i++) { Q q; q.q = g.pt(); q.r = g.real(0.1, 14); q.k = g.ival(1, 8); q.kind = g.ival(0, 2); v.push_back(q); } return v; }
}
OP(oct_build, GR_OCTREE) { auto db = cloud(g); int leaf = g.ival(1, 5); double ext = g.real(0.1, 2); return [=](D& d) { Octant* t = nullptr; if (d.call([&] { t = OctreeConstruction(db, leaf, ext); })) { d.hold(); digTree(d, t, 0); } d.call([&] { delete t; t = nullptr; }); }; }
OPW(oct_query, GR_OCTREE, 16) { auto db = cloud(g); int leaf = g.ival(1, 5); double ext = g.real(0.1, 2); auto qs = queries(g, g.ival(1, 5));
  // the tree is an input: it is built (by the library) when the caller's data is set up and only read by the op
  struct Holder { std::shared_ptr<Tree> t; }; auto t = std::make_shared<Tree>(); t->db = db; t->root = OctreeConstruction(db, leaf, ext);
  return [=](D& d) { for (auto& q : qs) { int n = 0; double w = 0; bool r = false; if (d.call([&] { if (q.kind == 2) { KnnResultSet s(q.k); r = OctreeKnnSearch(t->root, t->db, s, q.q); n = s.Size(); w = s.WorstDist(); if (s.Full()) n += 1000; } else { RadiusNnResultSet s(q.r); r = q.kind ? OctreeRadiusSearchFast(t->root, t->db, s, q.q) : OctreeRadiusSearch(t->root, t->db, s, q.q); n = s.Size(); w = s.WorstDist(); } })) { d.hold(); d << r << n << w;
      std::vector<double> ds; for (auto& p : t->db) { double x = p.GetX() - q.q.GetX(), y = p.GetY() - q.q.GetY(), z = p.GetZ() - q.q.GetZ(); ds.push_back(std::sqrt(x * x + y * y + z * z)); } std::sort(ds.begin(), ds.end()); const double e = 1e-5;
      if (q.kind == 2) { int N = (int)ds.size(), c = n >= 1000 ? n - 1000 : n; d.require(c == std::min(q.k, N) && (n >= 1000) == (N >= q.k), "a nearest-neighbour query reports another number of neighbours than a scan over all points"); if (N >= q.k) d.require(std::fabs(w - ds[q.k - 1]) < e, "a nearest-neighbour query reports another worst distance than a scan over all points"); }
      else { int lo = 0, hi = 0; for (double x : ds) { if (x < q.r - e) lo++; if (x <= q.r + e) hi++; } d.require(n >= lo && n <= hi, "a radius query reports another number of neighbours than a scan over all points"); } } } }; }
OP(oct_pred, GR_OCTREE) { auto t = std::make_shared<Tree>(); t->db = cloud(g); if (t->db.empty()) t->db.push_back(XYZ(1, 2, 3)); t->root = OctreeConstruction(t->db, 3, 0.5); auto qs = queries(g, 4); return [=](D& d) { for (auto& q : qs) { bool a = false, b = false, c = false; if (d.call([&] { a = Inside(q.q, q.r, t->root); b = Overlaps(q.q, q.r, t->root); c = Contains(q.q, q.r, t->root); })) d << a << b << c; } }; }
OP(oct_collect, GR_OCTREE) { int k = g.ival(1, 6); auto ds = g.reals(g.ival(1, 12), 0, 10); double rad = g.real(1, 8); return [=](D& d) { int n = 0, m = 0; double w = 0, x = 0; if (d.call([&] { KnnResultSet s(k); RadiusNnResultSet r(rad); for (size_t i = 0; i < ds.size(); i++) { s.AddPoint(ds[i], (int)i); r.AddPoint(ds[i], (int)i); } n = s.Size(); w = s.WorstDist(); m = r.Size(); x = r.WorstDist(); })) { d.hold(); d << n << w << m << x; } }; }
