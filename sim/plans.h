// From one seed to one plan. Included by main.cpp.
// Every profile belongs to one property; the round-robin over ops makes sure that every op of the profile is the focus again and again.
static const bool ODD = false;
enum PK { K_CONC, K_HOLD, K_SHARED, K_HISTORY, K_DIRTY, K_OOM, K_RECOVER, K_LEAK, K_ENV, K_MEM, K_ENTROPY, K_CALLBACK, K_VORONOI, K_OCTREE, K_PROGRESS };
struct Profile { const char* name; PK kind; int groups; };
static const int G_ALL = GR_CURVE | GR_SURFACE | GR_VOLUME | GR_ALGO | GR_MATH | GR_CAPI | GR_VORONOI | GR_OCTREE | GR_CALLBACK | GR_ENTROPY;
static const int G_CPP = G_ALL & ~GR_CAPI;
static const Profile PROFILES[] = {
  { "D01", K_CONC, GR_CURVE }, { "D02", K_CONC, GR_SURFACE | GR_VOLUME }, { "D03", K_CONC, GR_ALGO | GR_MATH | GR_VORONOI | GR_OCTREE }, { "D04", K_CONC, GR_CAPI }, { "D05", K_HOLD, GR_CAPI },
  { "D06", K_SHARED, G_ALL }, { "D07", K_HISTORY, G_ALL }, { "D08", K_DIRTY, G_CPP }, { "D09", K_OOM, G_ALL }, { "D10", K_RECOVER, G_ALL }, { "D11", K_LEAK, G_ALL }, { "D12", K_ENV, G_ALL }, { "D13", K_MEM, G_ALL },
  { "D14", K_ENTROPY, GR_ENTROPY }, { "D15", K_CALLBACK, GR_CALLBACK }, { "D16", K_VORONOI, GR_VORONOI }, { "D17", K_OCTREE, GR_OCTREE }, { "D18", K_PROGRESS, G_ALL },
};
static u64 g_master = 1; static const u64 SHARDS = 8;
static const Profile* findProfile(const std::string& n) { for (auto& p : PROFILES) if (n == p.name) return &p; return nullptr; }
static void listProfiles() { for (auto& p : PROFILES) { int n = 0; for (auto& o : ops()) if (o.group & p.groups) n++; printf("%s kind %d ops %d\n", p.name, p.kind, n); } }

struct Maker {
  const Profile& pf; Rng r; u64 index; std::vector<int> list; int focus; u64 pass; int pool; u64 shard;
  Maker(const Profile& p, u64 seed, u64 i) : pf(p), r(mix(seed, 0x91A2)), index(i) {
    // static: the focus list of the profile, weighted, in a fixed shuffled order
    static std::map<std::string, std::vector<int>> cache; auto& c = cache[pf.name];
    if (c.empty()) { for (size_t k = 0; k < ops().size(); k++) if (ops()[k].group & pf.groups) for (int w = 0; w < std::max(1, (ops()[k].weight + 5) / 10); w++) c.push_back((int)k); Rng q(hstr(pf.name)); for (size_t k = c.size(); k > 1; k--) std::swap(c[k - 1], c[q.below((u32)k)]); }
    list = c; shard = index % SHARDS; u64 k = index / SHARDS + shard * 37; pass = k / c.size(); focus = c[k % c.size()]; pool = (int)std::min<u64>(80, 4 + 2 * pass);
  }
  u64 variant() { return g_master * 1000003ull + shard * 4096 + r.below(pool); }
  OpRef op(int o, double pbad = 0.1) { OpRef x; x.op = o; x.variant = variant(); x.bad = r.chance(pbad); x.big = r.chance(0.08) ? 1 : ODD && r.chance(0.04) ? 2 : 0; return x; }
  int other() { return list[r.below((u32)list.size())]; }
  OpRef mutated(OpRef x) { x.mut = r.range(1, r.chance(0.5) ? 12 : 60); return x; }
  bool usable(const OpRef& x, u64 maxSteps) { if (giant(x.op) && maxSteps < GIANTLIMIT) return false; const OpOut* o = reference(x); return o && o->steps <= maxSteps; }
  bool choose(int o, OpRef& x, double pbad = 0.1, u64 maxSteps = 250000, int tries = 5) {
    if (!giant(o) && r.chance(0.3) && rareInstance(o, r, x) && (!x.bad || pbad > 0)) { if (r.chance(0.35)) x = mutated(x); if (usable(x, maxSteps)) return true; }
    for (int k = 0; k < tries; k++) { x = op(o, pbad); if (usable(x, maxSteps)) return true; } return false; }
  OpRef anchor; bool anchored = false; // the focus instance: partners that share state with it are preferred
  bool partner(OpRef& x, u64 maxSteps) { if (!anchored) return false; for (int k = 0; k < 3; k++) if (footPartner(anchor, r, x)) { if (r.chance(0.3)) { x.variant = variant(); x.mut = 0; } else if (r.chance(0.2)) x = mutated(x); if ((ops()[x.op].group & pf.groups) && usable(x, maxSteps)) return true; } return false; }
  bool any(OpRef& x, double pbad = 0.1, u64 maxSteps = 60000) { if (r.chance(0.5) && partner(x, std::max<u64>(maxSteps, 300000))) return true; for (int k = 0; k < 8; k++) { x = op(other(), pbad); if (usable(x, maxSteps)) return true; } return false; }
  void hot() { // now and then: focus on an operation that writes static or thread-local memory, every group of such operations equally often
    std::map<std::vector<int>, int> cl; for (auto& w : g_words) if (w.second.written && cl.size() < 400) { std::vector<int> v; for (int o : w.second.ops) if ((ops()[o].group & pf.groups) && !giant(o)) v.push_back(o); if (!v.empty()) cl[v]++; }
    if (cl.empty()) return; auto it = cl.begin(); std::advance(it, r.below((u32)cl.size())); focus = it->first[r.below((u32)it->first.size())];
  }
  u64 maxFor() { if (giant(focus)) { pool = 1; return r.chance(0.05) ? GIANTLIMIT : 1; } return r.chance(0.15) ? REFLIMIT : 300000ull; }
  void sched(Plan& p, u64 work) {
    SchedPlan& s = p.s; s.seed = r.next(); double x = r.unit(); static const u64 means[] = { 15, 60, 250, 1000, 4000, 20000 }; s.mean = means[r.below(6)]; static const double ps[] = { 0.02, 0.1, 0.35, 0.8 }; s.pShared = ps[r.below(4)]; s.depth = r.range(1, 6); s.horizon = std::max<u64>(50, work);
    u64 floor = work / 1200; if (s.mean < floor) s.mean = floor;
    if (x < 0.55) s.policy = P_RANDOM; else if (x < 0.8) s.policy = P_PCT; else if (x < 0.92) { s.policy = P_BURST; } else { s.policy = P_STALL; s.stallTask = (int)r.below(p.nt); s.stallAt = 1 + (u64)(r.unit() * (double)std::max<u64>(20, work / std::max(1, p.nt))); }
    if (p.nt < 2) s.policy = P_SERIAL;
  }
  u64 work(const Plan& p) { u64 w = 0; for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) { const OpOut* o = reference(s.r); if (o) w += o->steps; } return w; }
  void fault(Step& s) {
    const OpOut* o = reference(s.r); if (!o || !o->allocs) return; u64 a = o->allocs; s.f.seed = r.next(); double x = r.unit(); u64 n = 1 + (u64)(r.unit() * (double)a); if (n > a) n = a; if (r.chance(0.15)) n = 1 + r.below((u32)std::min<u64>(a, 3)); else if (r.chance(0.15)) n = a - r.below((u32)std::min<u64>(a, 3));
    else if (r.chance(0.8)) { auto& st = g_sites[opKey(s.r)]; if (!st.empty()) { u32 q = r.below((u32)st.size()); if (r.chance(0.75)) { u32 off = q, best = ~0u; for (u32 k = 0; k < st.size(); k++) { u32 j = (off + k) % (u32)st.size(); u32 hits = g_siteHits[st[j].h]; if (hits < best) { best = hits; q = j; } } } g_siteHits[st[q].h]++; n = r.chance(0.4) ? st[q].first : r.chance(0.4) ? st[q].last : st[q].first + (u64)(r.unit() * (double)(st[q].last - st[q].first + 1)); if (n < 1) n = 1; if (n > a) n = a; } } // every place that allocates, not every allocation, equally often; places that never failed before come first
    if (x < 0.62) { s.f.kind = 1; s.f.n = n; } else if (x < 0.80) { s.f.kind = 2; s.f.n = n; } else if (x < 0.88) { s.f.kind = 3; s.f.p = r.chance(0.5) ? 0.01 : 0.1; } else if (x < 0.93) { s.f.kind = 4; static const u64 z[] = { 64, 200, 512, 4096 }; s.f.n = z[r.below(4)]; } else { s.f.kind = 5; s.f.n = n; s.f.n2 = n + 1 + r.below(5); }
  }
  void env(Plan& p, double q) {
    EnvPlan& e = p.e; e.seed = r.next(); auto c = [&](double f) { return r.chance(q * f); };
    if (c(1)) e.fill = r.range(0, 6); if (c(1)) e.freefill = r.range(0, 2); if (c(1)) e.reuse = r.range(0, 2); if (c(1)) e.stackfill = r.range(0, 5); if (c(0.8)) e.layout = (u64)r.below(4000) * 16; if (c(0.6)) e.clock = r.range(0, 3); if (c(0.4)) e.envvars = r.range(0, 2);
  }
};

static bool makePlan(const Profile& pf, u64 seed, u64 index, Plan& p) {
  Maker m(pf, seed, index); Rng& r = m.r; OpRef f; if (r.chance(0.12)) m.hot(); u64 mx = m.maxFor(); bool ok;
  auto step = [&](int t, const OpRef& x, int dirty = 0, int shared = -1) { Step s; s.r = x; s.dirty = dirty; s.shared = shared; p.st[t].push_back(s); return &p.st[t].back(); };
  p.e.seed = r.next();
  switch (pf.kind) {
  case K_CONC: case K_CALLBACK: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.6) ? 2 : r.range(3, 4); bool homo = r.chance(0.7); bool same = r.chance(0.35); int n = r.range(1, 3); p.c.race = true; if (pf.kind == K_CALLBACK && r.chance(0.4)) { p.nt = 1; n = r.range(2, 6); }
    for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; ok = true; if (t || k) { if (homo || k == 0) { if (!same) ok = r.chance(0.3) ? m.usable(x = m.mutated(f), mx) : m.choose(m.focus, x, 0.1, mx); } else ok = m.any(x); } if (!ok) x = f; step(t, x, r.chance(0.2) ? (int)r.range(1, 50) : 0); }
    if (r.chance(0.12)) m.fault(p.st[r.below(p.nt)][0]); if (r.chance(0.3)) m.env(p, 0.4); m.sched(p, m.work(p)); break; }
  case K_HOLD: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.5) ? 1 : r.range(2, 4); int n = p.nt == 1 ? r.range(2, 8) : r.range(1, 3);
    for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; bool ok2 = true; if (t || k) ok2 = r.chance(0.4) ? m.choose(m.focus, x, 0.1, mx) : m.any(x); if (!ok2) x = f; step(t, x); }
    if (r.chance(0.2)) m.fault(p.st[0][0]); m.env(p, 0.3); m.sched(p, m.work(p)); break; }
  case K_SHARED: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.25) ? 1 : r.range(2, 4); p.c.race = true; int ns = 1; OpRef g2; bool two = r.chance(0.3) && m.any(g2); if (two) ns = 2; int n = r.range(1, 3);
    for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { int w = (int)r.below(ns); step(t, w ? g2 : f, r.chance(0.2) ? (int)r.range(1, 50) : 0, w); }
    { int used[2] = { 0, 0 }; for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) used[s.shared] = 1; if (!used[0]) for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) s.shared = 0; }
    if (r.chance(0.15)) m.fault(p.st[r.below(p.nt)][0]); m.sched(p, m.work(p)); break; }
  case K_HISTORY: {
    if (!m.choose(m.focus, f, 0.15, mx)) return false; m.anchor = f; m.anchored = true; p.nt = 1; int n = r.range(3, 10); OpRef last = f;
    for (int k = 0; k < n; k++) { OpRef x = f; double q = r.unit(); bool k2 = true; if (k == 0 || q < 0.18) x = f; else if (q < 0.44) k2 = m.usable(x = m.mutated(last), mx); else if (q < 0.62) k2 = m.choose(m.focus, x, 0.15, mx); else if (q < 0.70) { x = f; x.bad = 1; k2 = m.usable(x, mx); } else k2 = m.any(x); if (!k2) x = f; step(0, x, r.chance(0.15) ? (int)r.range(1, 50) : 0); if (x.op == m.focus) { last = x; last.mut = 0; } }
    step(0, f); if (r.chance(0.1)) m.env(p, 0.4); break; }
  case K_DIRTY: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = 1; int n = r.range(1, 3); step(0, f, r.range(1, 200)); for (int k = 1; k < n; k++) { OpRef x; if (!m.choose(m.focus, x, 0.1, mx)) x = f; step(0, x, r.range(1, 200)); } if (r.chance(0.2)) m.env(p, 0.5); if (r.chance(0.1)) m.fault(p.st[0][0]); break; }
  case K_OOM: {
    if (!m.choose(m.focus, f, 0.05, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.85) ? 1 : 2; u64 fs = reference(f)->steps; int n = fs > 150000 ? r.range(1, 2) : fs > 40000 ? r.range(1, 5) : r.range(2, 14); bool same = r.chance(0.5); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; if (t || k) { if (!same && r.chance(0.3) && !m.choose(m.focus, x, 0.05, std::min<u64>(mx, 300000))) x = f; } Step* s = step(t, x); s->retry = 0; m.fault(*s); if (r.chance(0.15)) s->dirty = r.range(1, 50); }
    m.env(p, 0.3); m.sched(p, m.work(p)); break; }
  case K_RECOVER: {
    if (!m.choose(m.focus, f, 0.05, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.75) ? 1 : 2; int n = r.range(2, 4);
    if (r.chance(0.12) && reference(f)->steps < 60000) { p.nt = 1; n = r.range(10, 40); for (int k = 0; k < n; k++) { OpRef x = f; if (r.chance(0.3) && !m.choose(m.focus, x, 0.05, 60000)) x = f; Step* s = step(0, x); s->retry = 0; m.fault(*s); } step(0, f); m.env(p, 0.2); break; } // many failures in a row
    if (p.nt == 2) p.c.race = r.chance(0.5);
    for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; bool k2 = true; if (t || k) { double q = r.unit(); if (q < 0.3) x = f; else if (q < 0.5) k2 = m.usable(x = m.mutated(f), mx); else if (q < 0.75) k2 = m.choose(m.focus, x, 0.05, mx); else k2 = m.any(x); } if (!k2) x = f; Step* s = step(t, x); s->retry = r.chance(0.7); if (k == 0 || r.chance(0.35)) m.fault(*s); if (r.chance(0.15)) s->dirty = r.range(1, 50); }
    step(0, f); m.env(p, 0.2); m.sched(p, m.work(p)); break; }
  case K_LEAK: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; u64 fs = reference(f)->steps; if (r.chance(0.25)) { p.mode = M_CHURN; p.nt = 7; p.s.policy = P_SERIAL; int n = r.range(1, 2); std::vector<OpRef> seq; seq.push_back(f); if (n > 1) { OpRef x; seq.push_back(m.any(x, 0.1, 30000) ? x : f); } bool flt = r.chance(0.4); Step proto; proto.r = f; if (flt) m.fault(proto); for (int t = 0; t < p.nt; t++) for (auto& x : seq) { Step* s = step(t, x); if (flt && x.op == f.op && x.variant == f.variant) { s->f = proto.f; s->retry = 0; } } break; }
    p.mode = M_LEAK; p.cycles = fs < 60000 ? 16 : fs < 600000 ? 9 : 6; p.nt = 1; step(0, f); bool flt = r.chance(0.6); m.anchor = f; m.anchored = true; if (r.chance(0.4)) { OpRef x; if (r.chance(0.35) ? m.any(x, 0.1, 60000) : m.choose(m.focus, x, 0.3, mx)) step(0, x); } if (flt) { Step& s = p.st[0][0]; m.fault(s); s.retry = r.chance(0.4); } if (r.chance(0.2)) m.env(p, 0.3); if (p.e.fill == 6) p.e.fill = 1; break; }
  case K_ENV: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.85) ? 1 : 2; int n = r.range(1, 3); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; bool k2 = true; if (t || k) k2 = r.chance(0.5) ? m.choose(m.focus, x, 0.1, mx) : m.any(x); if (!k2) x = f; step(t, x); } m.env(p, 0.9); if (r.chance(0.3)) p.e.entropy = r.range(0, 6); m.sched(p, m.work(p)); break; }
  case K_MEM: { // no reference needed: the instance only has to be one the caller may pass
    p.nt = 1; p.cmp = 0; p.c.wild = true; p.c.stepLimit = 40000000; int n = r.range(1, 2); for (int k = 0; k < n; k++) { OpRef x = m.op(m.focus, 0.1); bool rare = !giant(m.focus) && r.chance(0.3) && rareInstance(m.focus, r, x); if (rare) {} if (giant(m.focus)) { if (mx < GIANTLIMIT) return false; p.c.stepLimit = 400000000; } else { if (r.chance(0.3)) x = m.mutated(x); if (r.chance(0.15)) x.big = ODD ? r.range(1, 2) : 1; } Step* s = step(0, x); s->retry = r.chance(0.5); const OpOut* o = reference(x); if (o && r.chance(0.3)) m.fault(*s); if (o && o->steps > 400000 && r.chance(0.7)) return false; if (!o && g_refs[opKey(x)].items == HEAVY) return false; if (r.chance(0.15)) s->dirty = r.range(1, 50); } m.env(p, 0.5); break; }
  case K_ENTROPY: {
    if (!m.choose(m.focus, f, 0, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.7) ? 1 : r.range(2, 3); if (p.nt > 1) p.c.race = true; int n = r.range(1, 4); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; if (t || k) if (!m.choose(m.focus, x, 0, mx)) x = f; step(t, x); } double q = r.unit(); if (q < 0.35) p.e.entropy = r.range(1, 6); else if (q < 0.5) p.e.entropyFail = r.range(1, 2); m.env(p, 0.2); if (r.chance(0.15)) m.fault(p.st[0][0]); m.sched(p, m.work(p)); break; }
  case K_VORONOI: {
    if (!m.choose(m.focus, f, 0, REFLIMIT)) return false; double q = r.unit(); p.nt = 1; if (q < 0.3) { p.mode = M_LEAK; p.cycles = 16; step(0, f); if (r.chance(0.6)) { m.fault(p.st[0][0]); p.st[0][0].retry = r.chance(0.5); } break; }
    if (q < 0.55) { p.nt = r.range(2, 3); p.c.race = true; } int n = r.range(1, 3); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; if (t || k) if (!(r.chance(0.3) ? m.usable(x = m.mutated(f), REFLIMIT) : m.choose(m.other(), x, 0, REFLIMIT))) x = f; Step* s = step(t, x); if (r.chance(0.35)) { m.fault(*s); s->retry = r.chance(0.6); } } p.c.wild = r.chance(0.7); m.env(p, 0.6); m.sched(p, m.work(p)); break; }
  case K_OCTREE: {
    if (!m.choose(m.focus, f, 0, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.chance(0.3) ? 1 : r.range(2, 4); p.c.race = true; p.c.wild = r.chance(0.5); bool sh = r.chance(0.6); int n = r.range(1, 4); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; if (!sh && (t || k)) { if (!m.choose(m.other(), x, 0, mx)) x = f; } Step* s = step(t, x, 0, sh ? 0 : -1); if (r.chance(0.2)) { m.fault(*s); s->retry = r.chance(0.6); } } if (r.chance(0.1) && p.nt == 1) { p.mode = M_LEAK; p.cycles = 16; for (auto& s : p.st[0]) s.shared = -1; } m.env(p, 0.3); m.sched(p, m.work(p)); break; }
  case K_PROGRESS: {
    if (!m.choose(m.focus, f, 0.1, mx)) return false; m.anchor = f; m.anchored = true; p.nt = r.range(2, 4); p.blocked = 1; int n = r.range(1, 3); bool homo = r.chance(0.7); for (int t = 0; t < p.nt; t++) for (int k = 0; k < n; k++) { OpRef x = f; bool k2 = true; if (t || k) k2 = homo ? m.choose(m.focus, x, 0.1, mx) : m.any(x); if (!k2) x = f; Step* s = step(t, x); if (r.chance(0.15)) { m.fault(*s); s->retry = r.chance(0.5); } } m.sched(p, m.work(p)); if (r.chance(0.6)) { p.s.policy = P_STALL; p.s.stallTask = (int)r.below(p.nt); u64 w = 1; for (auto& s : p.st[p.s.stallTask]) { const OpOut* o = reference(s.r); if (o) w += o->steps; } p.s.stallAt = 1 + (u64)(r.unit() * (double)w); u64 lk = 0; for (auto& s : p.st[p.s.stallTask]) { const OpOut* o = reference(s.r); if (o) lk += o->locks; } if (lk && r.chance(0.6)) { p.s.stallAt = 0; p.s.stallLock = 1 + r.below((u32)std::min<u64>(lk, 1000)); } } if (r.chance(0.3)) p.e.clock = r.range(1, 3); break; }
  }
  return true;
}
