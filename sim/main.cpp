// Plans, references, worker loop, replay and minimisation. One seed decides one plan; one plan is one exactly repeatable execution.
#include "harness.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <exception>
#include <signal.h>
#include <unistd.h>
#include <ucontext.h>
#include <xmmintrin.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <fcntl.h>
#include <sys/time.h>
#include <cerrno>
using namespace sim;

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
namespace sim { extern bool g_blockedIsViolation; }
static double now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ D: the caller's side of a library call
static bool g_entropyLenient = false;
namespace sim {
void D::begin() { rt_fill_stack(g_env.stackfill); inCall = true; feedUsed = false; g_cur->inlib = true; }
void D::end() { g_cur->inlib = false; inCall = false; }
u32 D::firedNow() { return g_cur->fired; }
void D::threw(const char* type, const char* what) { item(0xE0000); str(type); if (!failed) snprintf(out->what, sizeof out->what, "%s: %s", type, what); failed = true; if (out->status == 0) out->status = 1; }
bool D::oomCaught(bool injected) {
  if (injected) { oom++; if (retry) { if (g_cur->fp.kind != 3 || oom > 2) g_cur->armed = false; return true; } surfaced = true; failed = true; out->status = 2; item(0xE0002); g_cur->armed = g_cur->fp.kind == 2 && g_cur->armed; return false; }
  threw("bad_alloc", ""); return false;
}
}

// ------------------------------------------------------------------ plans
struct OpRef { int op = 0; u64 variant = 0; int mut = 0; int bad = 0, big = 0; };
struct Step { OpRef r; int dirty = 0; FaultPlan f; int shared = -1; int retry = 1; };
struct Plan {
  std::string prof; u64 seed = 0; int mode = 0, cycles = 1, nt = 1; std::vector<Step> st[MAXT]; SchedPlan s; std::vector<Switch> sw; EnvPlan e; Checks c; int blocked = 0; int cmp = 1; // cmp: compare with the reference
};
enum { M_NORMAL = 0, M_LEAK = 1, M_CHURN = 2 };

static u64 hstr(const char* s) { u64 k = 0xC0FFEE; for (; *s; s++) k = mix(k, (u8)*s); return k; }
static u64 opKey(const OpRef& r) { u64 k = hstr(ops()[r.op].name); k = mix(k, r.variant); k = mix(k, (u64)r.mut + 1000); return mix(k, r.bad * 4 + r.big); }
static Body makeBody(const OpRef& r) { u64 seed = mix(hstr(ops()[r.op].name), r.variant); G g(seed, r.mut, r.bad != 0, r.big); Body b = ops()[r.op].make(g); u64 k = mix(seed, 0xFEED) % 8;
  if ((ops()[r.op].group & GR_CAPI) && !r.bad && k < 2) { static const char* whole[] = { "c_cur_point", "c_cur_reverse", "c_cur_reparam", "c_cur_elevate", "c_cur_split", "c_cur_decompose", "c_cur_length", "c_cur_transform", "c_cur_preds", "c_sur_point", "c_sur_swap", "c_sur_reverse", "c_sur_decompose", "c_sur_reparam", "c_sur_elevate", "c_sur_tri" }; // the rest take indices or parameters that fit the original shape only
    bool any = false; for (auto w : whole) if (!strcmp(w, ops()[r.op].name)) any = true; int prod = !k ? 0 : any ? (int)(mix(seed, 0xFEEE) % 5) : 4 * (int)(mix(seed, 0xFEEE) % 2);
    return [b, prod](D& d) { d.feed = 1; d.feedProd = prod; u64 h0 = d.h; u32 draws = g_cur->draws, fired = g_cur->fired; b(d); u64 h1 = d.h; d.h = h0; d.feed = 2; b(d);
      if (!d.failed && !d.surfaced && draws == g_cur->draws && fired == g_cur->fired) { d.feed = 0; d.require(d.h == h1, "a C API result passed straight back as the input of the next call is not taken as it was (a copy of it gives another result)"); } d.feed = 0; d.h = mix(h1, d.h); }; }
  return b; }

static bool legitimatelyLong(int op) { std::string n = ops()[op].name; return ops()[op].weight <= 1 || n == "vol_check" || n == "curve_offset" || n == "c_cur_offset"; } // up to 10^9 steps by design
static bool giant(int op) { return ops()[op].weight <= 1; }
static Result* g_shm; static Plan* g_plan; static OpOut g_expect[MAXT][MAXSTEP]; static bool g_refMode = false; static std::vector<Body>* g_sharedBodies;
static u64 g_leakBlocks[64], g_leakBytes[64];

static void sigh(int sig, siginfo_t* si, void* uc) {
  u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; if (g_res) { g_res->vpc[0] = pc; g_res->vaddr = (u64)si->si_addr; }
  if (sig == SIGXCPU) { violation(V_TIMEOUT, "no completion within the processor-time limit (reference completes at once)"); }
  violation(V_CRASH, "signal %d (%s) inside the library", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic exception" : sig == SIGABRT ? "abort" : "fault");
}
static void term() {
  char b[300] = "unknown exception"; std::exception_ptr p = std::current_exception(); if (p) { try { std::rethrow_exception(p); } catch (std::exception& e) { snprintf(b, sizeof b, "%s", e.what()); } catch (...) {} }
  violation(V_TERMINATE, "std::terminate called (%s)", b);
}
static void installHandlers() {
  static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = sigh; a.sa_flags = SA_SIGINFO | SA_ONSTACK; int l[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU }; for (int s : l) sigaction(s, &a, nullptr);
  std::set_terminate(term);
}

static void runStep(int t, int s, const Step& sp, bool judge) {
  Task* me = g_cur; me->curStep = s; OpOut* out = &g_res->out[t][s]; memset(out, 0, sizeof *out);
  me->target = TG_INPUT; Body own; const Body* body = nullptr;
  if (sp.shared >= 0 && g_sharedBodies) body = &(*g_sharedBodies)[sp.shared]; else { own = makeBody(sp.r); body = &own; }
  me->target = TG_HEAP; u64 im = input_mark(t), ih = sp.shared >= 0 ? 0 : input_hash(t, im);
  D d; d.out = out; d.dirtyMode = sp.dirty != 0; d.drng = Rng(mix(opKey(sp.r), mix(sp.dirty, 0xD1A7))); d.retry = sp.retry != 0;
  me->erng = Rng(mix(g_env.seed, opKey(sp.r))); me->draws = 0; me->allocIdx = 0; me->fired = 0; me->fp = sp.f; me->armed = sp.f.kind != 0; me->frng = Rng(mix(sp.f.seed, 0xFA)); 
  u64 steps0 = me->steps, allocs0 = me->allocs; u32 locks0 = me->locks; me->opBaseSteps = me->steps; const OpOut& ex = g_expect[t][s];
  me->opStepLimit = g_refMode || !ex.steps ? g_chk.stepLimit : ex.draws ? ex.steps * 200 + 4000000 : ex.steps * 30 + 400000; { u64 lim = me->opBaseSteps + me->opStepLimit; if (me->nextSlow > lim) me->nextSlow = lim; }
  unsigned csr = _mm_getcsr() & 0xFFC0;
  try { (*body)(d); } catch (...) { me->inlib = false; static const char m[] = "sim: op threw outside a library call\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(96); }
  me->inlib = false; me->armed = false; out->hash = d.h; out->items = d.n; out->steps = me->steps - steps0; out->allocs = me->allocs - allocs0; out->draws = me->draws; out->fired = me->fired; out->locks = me->locks - locks0; g_res->st.ops++;
  if ((_mm_getcsr() & 0xFFC0) != csr) violation(V_FPENV, "the call changed the caller's floating-point control state");
  rt_trace(mix(out->hash, out->steps));
  if (d.predicateBad && !g_refMode) violation(V_BADVALUE, "%s", d.pred);
  if (sp.shared < 0 && input_hash(t, im) != ih) violation(V_INPUT_WRITE, "the caller's input changed during the call");
  if (judge && g_plan->cmp == 1 && !d.surfaced) {
    bool entropyVaries = ex.draws > 0;
    if (entropyVaries) { if (!g_entropyLenient && ex.status != out->status) violation(V_MISMATCH, "outcome differs from the reference execution: %s", out->status ? out->what : "completed"); }
    else if (ex.hash != out->hash || ex.items != out->items || ex.status != out->status) {
      int k = 0; int lim = (int)std::min((u32)ITEMS, std::min(ex.items, out->items)); while (k < lim && ex.item[k] == out->item[k]) k++;
      double a = 0, b = 0; if (k < lim) { memcpy(&a, &ex.item[k], 8); memcpy(&b, &out->item[k], 8); }
      violation(V_MISMATCH, "result differs from the same call executed alone: outcome %s%s%s vs %s%s%s, %u vs %u values, first difference at value %d (%.17g vs %.17g)", ex.status ? "threw " : "ok", ex.status ? ex.what : "", "", out->status ? "threw " : "ok", out->status ? out->what : "", "", ex.items, out->items, k, a, b);
    }
  }
  me->nolib = 0; me->target = TG_HEAP; own = nullptr; arena_input_reset(t);
}
static void* taskMain(void* a) {
  int t = (int)(intptr_t)a; const Plan& p = *g_plan;
  if (p.mode == M_LEAK) {
    int cycles = p.cycles; for (int c = 0; c < cycles; c++) { if (c == 16 && cycles == 16) break; if (c == 15 && t == 0 && g_leakBytes[3] < g_leakBytes[7] && g_leakBytes[7] < g_leakBytes[14]) cycles = 64; // capacity that only ratchets up to its final size is not a leak: look longer
      for (size_t s = 0; s < p.st[t].size(); s++) runStep(t, (int)s, p.st[t][s], true); if (t == 0 && c < 64) { g_leakBlocks[c] = rt_live_blocks(); g_leakBytes[c] = rt_live_bytes(); } }
  } else for (size_t s = 0; s < p.st[t].size(); s++) runStep(t, (int)s, p.st[t][s], true);
  return nullptr;
}
static bool g_childDebug = false;
[[noreturn]] static void childMain(Plan& p) {
  rlim_t cpu = p.c.stepLimit > 100000000 ? 60 : 15; for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) if (giant(s.r.op)) cpu = 80; struct rlimit rl = { cpu, cpu + 10 }; setrlimit(RLIMIT_CPU, &rl); struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc); prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGTERM, SIG_DFL); if (!getenv("SIM_STDERR")) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } } installHandlers();
  g_plan = &p; p.s.nsw = (int)p.sw.size(); p.s.sw = p.sw.data(); g_blockedIsViolation = p.blocked != 0; g_entropyLenient = p.e.entropy != 0 || p.e.entropyFail != 0;
  rt_child_begin(g_shm, p.e, p.s, p.c, p.nt); g_footOn = g_refMode;
  std::vector<Body> sh; int ns = 0; for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) ns = std::max(ns, s.shared + 1);
  u64 shash = 0; if (ns) { rt_shared_inputs(true); sh.resize(ns); for (int i = 0; i < ns; i++) for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) if (s.shared == i && !sh[i]) sh[i] = makeBody(s.r); rt_shared_inputs(false); g_sharedBodies = &sh; shash = shared_hash(); }
  u64 serial0 = rt_serial(); u64 b0 = rt_live_blocks(); (void)b0;
  rt_run_tasks(p.nt, taskMain);
  if (ns && shared_hash() != shash) violation(V_INPUT_WRITE, "a shared read-only input changed while callers used it");
  if (p.mode == M_LEAK && p.cycles >= 6) {
    int n = p.cycles; bool grow = true; for (int i = 3; i < n; i++) if (g_leakBlocks[i] <= g_leakBlocks[i - 1]) grow = false;
    bool growBytes = n >= 16 && g_leakBytes[63] && g_leakBytes[7] < g_leakBytes[15] && g_leakBytes[15] < g_leakBytes[31] && g_leakBytes[31] < g_leakBytes[63];
    if (grow || growBytes) { char buf[300]; rt_describe_live(buf, sizeof buf, serial0); violation(V_LEAK, "repeating the same calls %d times keeps %llu blocks / %llu bytes more each round:%s", n, (unsigned long long)(g_leakBlocks[n - 1] - g_leakBlocks[n - 2]), (unsigned long long)((g_leakBytes[n - 1] - g_leakBytes[n / 2]) / (n - 1 - n / 2)), buf); }
  }
  if (p.mode == M_CHURN && p.nt >= 5) { bool all = true; for (int t = 2; t < p.nt; t++) if (arena_mark(t) == 0) all = false; if (all) { char buf[300]; rt_describe_live(buf, sizeof buf, serial0); violation(V_LEAK, "every finished thread leaves memory behind:%s", buf); } }
  g_shm->state = 2; _exit(0);
}

// ------------------------------------------------------------------ running a plan in a fork
struct Outcome { int vkind = 0; int task = -1, step = -1; std::string detail; u64 trace = 0; bool discarded = false; bool broken = false; std::string why; };
static void clearShm() { memset((void*)g_shm, 0, offsetof(Result, sw)); memset((char*)g_shm + offsetof(Result, swOverflow), 0, sizeof(int)); memset(&g_shm->st, 0, sizeof g_shm->st); if (g_refMode) memset(g_cov, 0, COV); }
static volatile pid_t g_watchPid = 0; static void watch(int) { if (g_watchPid > 0) kill(g_watchPid, SIGKILL); }
static Outcome execPlan(Plan& p) {
  Outcome o; clearShm(); fflush(stdout); fflush(stderr); pid_t c = fork(); if (c < 0) { o.broken = true; o.why = "fork"; return o; } if (c == 0) childMain(p);
  int st = 0; struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 200; g_watchPid = c; setitimer(ITIMER_REAL, &tv, nullptr); // nothing may block a worker
  pid_t w; do w = waitpid(c, &st, 0); while (w < 0 && errno == EINTR); tv.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &tv, nullptr); g_watchPid = 0; if (w != c) { o.broken = true; o.why = "wait"; return o; }
  if (g_shm->state == 2) { o.vkind = g_shm->vkind; o.task = g_shm->vtask; o.step = g_shm->vstep; o.detail = g_shm->detail; o.trace = g_shm->traceHash; return o; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { o.discarded = true; return o; }
  o.broken = true; char b[80]; snprintf(b, sizeof b, "child status 0x%x", st); o.why = b; return o;
}

// ------------------------------------------------------------------ references
static std::unordered_map<u64, OpOut> g_refs; static u64 g_nrefs = 0, g_badrefs = 0, g_heavyrefs = 0; static u64 REFLIMIT = getenv("SIM_REFLIMIT") ? strtoull(getenv("SIM_REFLIMIT"), 0, 10) : 12000000; static const u64 GIANTLIMIT = 300000000; static std::map<int, int> g_refBadByOp;
static const u32 HEAVY = 0xFFFFFF01u; static std::vector<std::pair<OpRef, bool>> g_unusable; // instances that do not complete alone (second: heavy)
// which instances touch which static or thread-local word: partners that could influence one another
struct FootUse { OpRef r; bool wrote; }; struct FootWord { std::vector<FootUse> use; std::set<int> ops; bool written = false; u64 seen = 0; };
static std::unordered_map<u64, FootWord> g_words; static std::unordered_map<u64, std::vector<u64>> g_footOf; static Rng g_footRng(77);
static void footNote(const OpRef& r, u64 k) {
  std::vector<u64>& v = g_footOf[k]; for (u32 i = 0; i < g_shm->nfoot && i < (u32)MAXFOOT; i++) { u64 f = g_shm->foot[i]; v.push_back(f); FootWord& w = g_words[f >> 1]; FootUse u{ r, (f & 1) != 0 }; w.ops.insert(r.op); w.written |= u.wrote; w.seen++; if (w.use.size() < 48) w.use.push_back(u); else if (g_footRng.below((u32)w.seen) < 48) w.use[g_footRng.below(48)] = u; }
}
static bool footPartner(const OpRef& f, Rng& r, OpRef& x) { // an instance that shares a written word with f, rarely shared words first
  auto it = g_footOf.find(opKey(f)); if (it == g_footOf.end()) return false; double tot = 0; std::vector<std::pair<u64, double>> c; for (u64 w : it->second) { FootWord& fw = g_words[w >> 1]; if (!fw.written || fw.use.size() < 2) continue; double q = 1.0 / ((double)fw.ops.size() * fw.ops.size()); tot += q; c.push_back({ w, q }); }
  if (c.empty()) return false; double y = r.unit() * tot; size_t k = 0; while (k + 1 < c.size() && y > c[k].second) { y -= c[k].second; k++; }
  FootWord& fw = g_words[c[k].first >> 1]; bool fwrote = c[k].first & 1; for (int t = 0; t < 6; t++) { FootUse& u = fw.use[r.below((u32)fw.use.size())]; if (fwrote || u.wrote) { x = u.r; return true; } } return false;
}
// allocation sites of an instance, and which instances reach code that few instances of their operation reach
struct SiteUse { u64 h; u32 first, last; }; static std::unordered_map<u64, std::vector<SiteUse>> g_sites; static std::unordered_map<u64, u32> g_siteHits; // and how often a failure was aimed at a site
struct OpCov { u32 n = 0; std::vector<OpRef> inst; std::vector<u16> touched; }; static std::vector<OpCov> g_opcov; static u16* g_covCount; static u16* g_covInst; // per operation: how often a piece of code was reached, and by whom
static void covNote(const OpRef& r, u64 k) {
  std::vector<SiteUse>& s = g_sites[k]; for (u32 i = 0; i < g_shm->nsite && i < (u32)MAXSITE; i++) s.push_back({ g_shm->site[i].h, g_shm->site[i].first, g_shm->site[i].last });
  if (!g_covCount) { size_t n = ops().size() * (size_t)COV * 2; g_covCount = (u16*)mmap(nullptr, n * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_covCount == MAP_FAILED) { g_covCount = nullptr; return; } madvise(g_covCount, n * 2, MADV_DONTFORK); g_covInst = g_covCount + ops().size() * (size_t)COV; g_opcov.resize(ops().size()); }
  OpCov& c = g_opcov[r.op]; u16* cnt = g_covCount + (size_t)r.op * COV; u16* ins = g_covInst + (size_t)r.op * COV; bool kept = false; u32 id = (u32)c.inst.size(); c.n++; if (id >= 60000) return; const u64* w = (const u64*)g_cov;
  for (u32 b = 0; b < COV / 8; b++) if (w[b]) for (u32 j = b * 8; j < b * 8 + 8; j++) if (g_cov[j]) { if (cnt[j] == 0) c.touched.push_back((u16)j); if (cnt[j] < 65535) cnt[j]++; if (cnt[j] <= 3 || g_footRng.below(cnt[j]) == 0) { ins[j] = (u16)id; kept = true; } }
  if (kept) c.inst.push_back(r);
}
static bool rareInstance(int op, Rng& r, OpRef& x) {
  if (!g_covCount) return false; OpCov& c = g_opcov[op]; if (c.n < 3 || c.touched.empty()) return false; u16* cnt = g_covCount + (size_t)op * COV; u32 best = 0, bc = ~0u; int tries = 2 + (int)r.below(20); for (int t = 0; t < tries; t++) { u32 j = c.touched[r.below((u32)c.touched.size())]; if (cnt[j] < bc) { bc = cnt[j]; best = j; } }
  if (bc * 2 > c.n) return false; u32 id = g_covInst[(size_t)op * COV + best]; if (id >= c.inst.size()) return false; x = c.inst[id]; return true;
}
static EnvPlan refEnv() { EnvPlan e; return e; }
static const OpOut* reference(const OpRef& r) { // nullptr: instance unusable (crashes alone or is too heavy)
  u64 k = opKey(r); auto it = g_refs.find(k); if (it == g_refs.end()) {
    Plan p; p.nt = 1; Step s; s.r = r; p.st[0].push_back(s); p.e = refEnv(); if (getenv("SIM_REFWILD")) p.c.wild = true; p.c.stepLimit = giant(r.op) ? GIANTLIMIT : REFLIMIT; p.cmp = 0; g_refMode = true; Outcome o = execPlan(p); g_refMode = false; OpOut x = g_shm->out[0][0]; g_nrefs++;
    if (o.broken || o.discarded || o.vkind) { x.status = 99; x.items = 0; if (o.vkind == V_STEPS || o.vkind == V_TIMEOUT || o.discarded) { g_heavyrefs++; x.items = HEAVY; } else { g_badrefs++; g_refBadByOp[r.op]++; } snprintf(x.what, sizeof x.what, "%s", o.vkind ? vkind_name(o.vkind) : o.why.c_str()); g_unusable.push_back({ r, x.items == HEAVY }); }
    it = g_refs.emplace(k, x).first; if (x.status != 99) { footNote(r, k); covNote(r, k); }
  }
  return it->second.status == 99 ? nullptr : &it->second;
}
static bool bindRefs(Plan& p) { if (p.cmp == 2) { memset(g_expect, 0, sizeof g_expect); return true; } if (!p.cmp) { memset(g_expect, 0, sizeof g_expect); for (int t = 0; t < p.nt; t++) for (size_t s = 0; s < p.st[t].size(); s++) { const OpOut* r = reference(p.st[t][s].r); if (r) g_expect[t][s] = *r; else if (g_refs[opKey(p.st[t][s].r)].items == HEAVY) return false; } return true; }
  for (int t = 0; t < p.nt; t++) for (size_t s = 0; s < p.st[t].size(); s++) { const OpOut* r = reference(p.st[t][s].r); if (!r) return false; g_expect[t][s] = *r; } return true; }

// ------------------------------------------------------------------ text form
static std::string planText(const Plan& p) {
  std::ostringstream o; o.precision(17); o << "plan 1\nprof " << p.prof << "\nseed " << p.seed << "\nmode " << p.mode << ' ' << p.cycles << "\nblocked " << p.blocked << "\ncmp " << p.cmp << "\n";
  o << "env " << p.e.fill << ' ' << p.e.freefill << ' ' << p.e.reuse << ' ' << p.e.stackfill << ' ' << p.e.layout << ' ' << p.e.seed << ' ' << p.e.clock << ' ' << p.e.entropy << ' ' << p.e.entropyFail << ' ' << p.e.envvars << "\n";
  o << "checks " << p.c.race << ' ' << p.c.wild << ' ' << p.c.inputWrite << ' ' << p.c.stepLimit << "\n";
  o << "sched " << p.s.policy << ' ' << p.s.seed << ' ' << p.s.pShared << ' ' << p.s.mean << ' ' << p.s.depth << ' ' << p.s.horizon << ' ' << p.s.stallTask << ' ' << p.s.stallAt << ' ' << p.s.stallLock << "\n";
  for (auto& w : p.sw) o << "switch " << w.from << ' ' << w.step << ' ' << w.to << "\n";
  o << "tasks " << p.nt << "\n"; for (int t = 0; t < p.nt; t++) for (auto& s : p.st[t]) o << "step " << t << ' ' << ops()[s.r.op].name << ' ' << s.r.variant << ' ' << s.r.mut << ' ' << s.r.bad << ' ' << s.r.big << " dirty " << s.dirty << " fault " << s.f.kind << ' ' << s.f.n << ' ' << s.f.n2 << ' ' << s.f.p << ' ' << s.f.seed << " shared " << s.shared << " retry " << s.retry << "\n";
  return o.str();
}
static int opByName(const std::string& n) { for (size_t i = 0; i < ops().size(); i++) if (n == ops()[i].name) return (int)i; return -1; }
static bool planParse(std::istream& in, Plan& p, std::map<std::string, std::string>& meta) {
  std::string line; while (std::getline(in, line)) { if (line.empty()) continue; if (line[0] == '#') { auto q = line.find('='); if (q != std::string::npos) meta[line.substr(2, q - 2)] = line.substr(q + 1); continue; }
    std::istringstream s(line); std::string k; s >> k;
    if (k == "prof") s >> p.prof; else if (k == "seed") s >> p.seed; else if (k == "mode") s >> p.mode >> p.cycles; else if (k == "blocked") s >> p.blocked; else if (k == "cmp") s >> p.cmp;
    else if (k == "env") s >> p.e.fill >> p.e.freefill >> p.e.reuse >> p.e.stackfill >> p.e.layout >> p.e.seed >> p.e.clock >> p.e.entropy >> p.e.entropyFail >> p.e.envvars;
    else if (k == "checks") s >> p.c.race >> p.c.wild >> p.c.inputWrite >> p.c.stepLimit;
    else if (k == "sched") s >> p.s.policy >> p.s.seed >> p.s.pShared >> p.s.mean >> p.s.depth >> p.s.horizon >> p.s.stallTask >> p.s.stallAt >> p.s.stallLock;
    else if (k == "switch") { Switch w; s >> w.from >> w.step >> w.to; p.sw.push_back(w); } else if (k == "tasks") s >> p.nt;
    else if (k == "step") { int t; std::string n, x; Step st; s >> t >> n >> st.r.variant >> st.r.mut >> st.r.bad >> st.r.big >> x >> st.dirty >> x >> st.f.kind >> st.f.n >> st.f.n2 >> st.f.p >> st.f.seed >> x >> st.shared >> x >> st.retry; st.r.op = opByName(n); if (st.r.op < 0) { fprintf(stderr, "unknown op %s\n", n.c_str()); return false; } p.st[t].push_back(st); } }
  return true;
}

#include "plans.h"

// ------------------------------------------------------------------ minimisation
static bool sameViol(const Outcome& a, const Outcome& b) { return b.vkind == a.vkind || (a.vkind && b.vkind && (a.vkind == V_CRASH || b.vkind == V_CRASH || a.vkind == V_WILD || b.vkind == V_WILD || a.vkind == V_RACE || b.vkind == V_RACE) && !(a.vkind == V_STEPS || b.vkind == V_STEPS)); }
static bool tryPlan(const Plan& base, Plan& cand, const Outcome& want, Outcome& got, double deadline, int reseeds) {
  if (now() > deadline) return false; if (!bindRefs(cand)) return false;
  for (int k = 0; k <= reseeds; k++) { if (k) { if (cand.s.policy == P_EXPLICIT || cand.nt < 2) return false; cand.s.seed = mix(base.s.seed, 7777 + k); } Outcome o = execPlan(cand); if (!o.broken && !o.discarded && o.vkind && sameViol(want, o)) { got = o; return true; } if (now() > deadline) return false; }
  return false;
}
static Plan minimise(Plan p, Outcome& o, double budget) {
  double dl = now() + budget; Outcome got; bool changed = true;
  auto totalSteps = [](const Plan& q) { size_t n = 0; for (int t = 0; t < q.nt; t++) n += q.st[t].size(); return n; };
  while (changed && now() < dl) { changed = false;
    for (int t = p.nt - 1; t >= 0 && p.nt > 1; t--) { if (p.mode == M_CHURN) break; Plan c = p; for (int u = t; u + 1 < c.nt; u++) c.st[u] = c.st[u + 1]; c.st[c.nt - 1].clear(); c.nt--; if (tryPlan(p, c, o, got, dl, 6)) { p = c; o = got; changed = true; } }
    for (int t = 0; t < p.nt; t++) for (int s = (int)p.st[t].size() - 1; s >= 0 && totalSteps(p) > 1; s--) { if (p.st[t].size() == 1 && p.nt > 1) continue; if (s >= (int)p.st[t].size()) continue; Plan c = p; c.st[t].erase(c.st[t].begin() + s); if (tryPlan(p, c, o, got, dl, 4)) { p = c; o = got; changed = true; } } }
  for (int t = 0; t < p.nt; t++) for (size_t s = 0; s < p.st[t].size(); s++) { if (p.st[t][s].f.kind) { Plan c = p; c.st[t][s].f = FaultPlan(); if (tryPlan(p, c, o, got, dl, 2)) { p = c; o = got; } } if (p.st[t][s].dirty) { Plan c = p; c.st[t][s].dirty = 0; if (tryPlan(p, c, o, got, dl, 2)) { p = c; o = got; } } if (p.st[t][s].r.big) { Plan c = p; c.st[t][s].r.big = 0; if (tryPlan(p, c, o, got, dl, 2)) { p = c; o = got; } } }
  { Plan c = p; c.e = refEnv(); if (tryPlan(p, c, o, got, dl, 2)) { p = c; o = got; } else for (int f = 0; f < 8; f++) { Plan c = p; EnvPlan r = refEnv(); switch (f) { case 0: c.e.fill = r.fill; break; case 1: c.e.freefill = r.freefill; break; case 2: c.e.reuse = r.reuse; break; case 3: c.e.stackfill = r.stackfill; break; case 4: c.e.layout = r.layout; break; case 5: c.e.clock = r.clock; break; case 6: c.e.entropy = 0; c.e.entropyFail = 0; break; case 7: c.e.envvars = 0; break; } if (tryPlan(p, c, o, got, dl, 1)) { p = c; o = got; } } }
  // schedule: turn the recorded switches into an explicit list, then drop as many as possible
  if (p.nt > 1 && p.s.policy != P_EXPLICIT) { bindRefs(p); Outcome x = execPlan(p); if (!g_shm->swOverflow && x.vkind) { Plan c = p; c.sw.assign(g_shm->sw, g_shm->sw + g_shm->nsw); c.s.policy = P_EXPLICIT; if (tryPlan(p, c, o, got, dl, 0)) { p = c; o = got; } } }
  if (p.s.policy == P_EXPLICIT) { size_t chunk = std::max<size_t>(1, p.sw.size() / 2); while (now() < dl) { bool ch = false; for (size_t i = 0; i < p.sw.size() && now() < dl;) { Plan c = p; size_t e = std::min(p.sw.size(), i + chunk); c.sw.erase(c.sw.begin() + i, c.sw.begin() + e); if (tryPlan(p, c, o, got, dl, 0)) { p = c; o = got; ch = true; } else i += chunk; } if (chunk == 1 && !ch) break; chunk = std::max<size_t>(1, chunk / 2); if (!ch && chunk == 1 && p.sw.empty()) break; } }
  return p;
}
static std::string symbol(u64 pc) { char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)pc); return b; }
static std::string opAt(const Plan& p, int t, int s) { if (t >= 0 && t < p.nt && s >= 0 && s < (int)p.st[t].size()) return ops()[p.st[t][s].r.op].name; return "-"; }
static void writeReplay(const std::string& path, const Plan& p, const Outcome& o) {
  std::ofstream f(path); f << "# property=" << p.prof << "\n# kind=" << vkind_name(o.vkind) << "\n# op=" << opAt(p, o.task, o.step) << "\n# task=" << o.task << "\n# step=" << o.step << "\n# trace=" << o.trace << "\n# pc=" << symbol(g_shm->vpc[0]) << "\n# pc2=" << symbol(g_shm->vpc[1]) << "\n# detail=" << o.detail << "\n" << planText(p);
}

// ------------------------------------------------------------------ commands
static volatile sig_atomic_t g_stop = 0; static void onTerm(int) { g_stop = 1; }
static int cmdWorker(int argc, char** argv) { // worker PROFILE SEED FIRST STRIDE SECONDS OUTDIR MAXRUNS MINIMISE_SECONDS MAXVIOL
  std::string prof = argv[2]; u64 seed = g_master = strtoull(argv[3], 0, 10); u64 first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); std::string dir = argv[7]; u64 maxRuns = strtoull(argv[8], 0, 10); double minSec = atof(argv[9]); int maxViol = atoi(argv[10]);
  const Profile* pf = findProfile(prof); if (!pf) { fprintf(stderr, "no profile %s\n", prof.c_str()); return 3; }
  double end = now() + secs, t0 = now(); u64 runs = 0, skipped = 0, discarded = 0, broken = 0; Stats tot; memset(&tot, 0, sizeof tot); std::unordered_set<u64> sched, inst, traces; std::map<std::string, u64> polc, envc; int viol = 0; u64 nondet = 0; std::set<std::string> seenViol; std::map<std::string, u64> opc; u64 faultRuns = 0, firedRuns = 0; std::string samples; int ns = 0; std::string brokenWhy;
  std::map<std::string, int> heavyDone, badDone; int heavyTotal = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTerm; sa.sa_flags = SA_RESTART; sigaction(SIGTERM, &sa, nullptr);
  for (u64 i = first; runs + skipped < maxRuns && now() < end && !g_stop; i += stride) {
    u64 rs = mix(mix(seed, hstr(prof.c_str())), i); Plan p; p.prof = prof; p.seed = rs; bool planned = makePlan(*pf, rs, i, p) && bindRefs(p);
    // a call that crashes, writes its input or never ends even when it is the only one: judged by itself
    bool solo = false; while (!g_unusable.empty() && !solo) { auto u = g_unusable.back(); g_unusable.pop_back(); std::string on = ops()[u.first.op].name; if (u.second && (pf->kind != K_PROGRESS || legitimatelyLong(u.first.op) || heavyDone[on]++ > 0 || heavyTotal++ >= 3)) continue; if (!u.second && badDone[on]++ > 0) continue; Plan q; q.prof = prof; q.seed = rs; q.nt = 1; q.cmp = 2; q.c.stepLimit = u.second ? 500000000ull : giant(u.first.op) ? GIANTLIMIT : REFLIMIT; Step st; st.r = u.first; q.st[0].push_back(st); p = q; solo = bindRefs(p); }
    if (!solo && !planned) { skipped++; continue; }
    Outcome o = execPlan(p); if (o.discarded) { discarded++; continue; } if (o.broken) { broken++; brokenWhy = o.why; continue; } runs++;
    Stats& s = g_shm->st; u64* a = (u64*)&tot; u64* b = (u64*)&s; for (size_t k = 0; k < sizeof(Stats) / 8; k++) a[k] += b[k]; if (p.nt > 1 && sched.size() < 400000) sched.insert(mix(s.schedHash, p.nt)); if (traces.size() < 400000) traces.insert(o.trace);
    static const char* pn[] = { "serial", "random", "pct", "stall", "explicit", "burst" }; polc[pn[p.s.policy]]++; bool hasF = false; for (int t = 0; t < p.nt; t++) for (auto& st : p.st[t]) { if (inst.size() < 400000) inst.insert(opKey(st.r)); opc[ops()[st.r.op].name]++; if (st.f.kind) hasF = true; } if (hasF) { faultRuns++; bool f = false; for (u64 x : s.fired) if (x) f = true; if (f) firedRuns++; }
    { char k[60]; snprintf(k, sizeof k, "fill%d", p.e.fill); envc[k]++; snprintf(k, sizeof k, "stack%d", p.e.stackfill); envc[k]++; snprintf(k, sizeof k, "reuse%d", p.e.reuse); envc[k]++; if (p.e.clock) { snprintf(k, sizeof k, "clock%d", p.e.clock); envc[k]++; } if (p.e.entropy) { snprintf(k, sizeof k, "entropy%d", p.e.entropy); envc[k]++; } if (p.e.entropyFail) envc["entropyFail"]++; if (p.e.envvars) envc["envvars"]++; }
    if (ns < 3 && runs % 7 == 3) { ns++; std::string d; for (int t = 0; t < p.nt; t++) { d += " | caller" + std::to_string(t) + ":"; for (auto& st : p.st[t]) { d += " "; d += ops()[st.r.op].name; if (st.f.kind) d += "(fault" + std::to_string(st.f.kind) + "@" + std::to_string(st.f.n) + ")"; } } char h[120]; snprintf(h, sizeof h, "seed=%llu policy=%s switches=%llu steps=%llu", (unsigned long long)rs, pn[p.s.policy], (unsigned long long)s.switches, (unsigned long long)s.steps); samples += std::string("sample ") + h + d + "\n"; }
    if (o.vkind) {
      std::string sig = std::string(vkind_name(o.vkind)) + "/" + opAt(p, o.task, o.step); if (seenViol.count(sig)) continue; 
      Outcome o2 = execPlan(p); if (o2.vkind != o.vkind || o2.trace != o.trace || o2.detail != o.detail) { nondet++; fprintf(stderr, "NONDETERMINISTIC seed %llu: %s vs %s [%s | %s]\n", (unsigned long long)rs, vkind_name(o.vkind), vkind_name(o2.vkind), o.detail.c_str(), o2.detail.c_str()); continue; }
      seenViol.insert(sig); Plan q = minimise(p, o, minSec); bindRefs(q); Outcome f1 = execPlan(q); if (!f1.vkind) { q = p; bindRefs(q); f1 = execPlan(q); }
      char fn[60]; snprintf(fn, sizeof fn, "/viol-%llu.replay", (unsigned long long)i); writeReplay(dir + fn, q, f1); viol++; if (viol >= maxViol) break;
    }
  }
  std::ofstream f(dir + "/stats-" + std::to_string(first) + ".txt"); f.precision(10);
  f << "runs " << runs << "\nskipped " << skipped << "\ndiscarded " << discarded << "\nbroken " << broken << "\nnondet " << nondet << "\nviolations " << viol << "\nwall " << now() - t0 << "\nrefs " << g_nrefs << "\nbadrefs " << g_badrefs << "\nheavyrefs " << g_heavyrefs << "\nsteps " << tot.steps << "\nswitches " << tot.switches << "\nsharedAccess " << tot.sharedAccess << "\nglobalAccess " << tot.globalAccess << "\nallocs " << tot.allocs << "\nlocks " << tot.locks << "\natomics " << tot.atomics << "\nguards " << tot.guards << "\nclockReads " << tot.clockReads << "\nentropyDraws " << tot.entropyDraws << "\nentropyFails " << tot.entropyFails << "\nthreads " << tot.threads << "\nfrees " << tot.frees << "\ntornCopies " << tot.tornCopies << "\nstalls " << tot.stalls << "\nops " << tot.ops << "\nforeignSkipped " << tot.foreignSkipped << "\nfaultRuns " << faultRuns << "\nfiredRuns " << firedRuns << "\n";
  for (int k = 1; k < 8; k++) f << "fired" << k << " " << tot.fired[k] << "\n"; for (auto& x : polc) f << "policy " << x.first << " " << x.second << "\n"; for (auto& x : envc) f << "env " << x.first << " " << x.second << "\n"; for (auto& x : opc) f << "op " << x.first << " " << x.second << "\n"; for (auto& x : g_refBadByOp) f << "badop " << ops()[x.first].name << " " << x.second << "\n"; if (!brokenWhy.empty()) f << "why " << brokenWhy << "\n";
  f << samples; auto dump = [&](const char* n, std::unordered_set<u64>& st) { std::ofstream h(dir + "/" + n + "-" + std::to_string(first) + ".bin", std::ios::binary); for (u64 v : st) h.write((char*)&v, 8); }; dump("sched", sched); dump("inst", inst); dump("trace", traces);
  return 0;
}
static int cmdReplay(int argc, char** argv) { // replay FILE: exit 1 when the recorded violation happens again, exactly
  std::ifstream in(argv[2]); if (!in) { fprintf(stderr, "cannot open %s\n", argv[2]); return 3; } Plan p; std::map<std::string, std::string> meta; if (!planParse(in, p, meta)) return 3; if (!bindRefs(p)) { printf("REPLAY unusable: an op of the plan has no reference on this tree\n"); return 3; }
  Outcome o = execPlan(p); if (o.broken || o.discarded) { printf("REPLAY broken %s\n", o.why.c_str()); return 3; } bool exact = o.vkind && meta["kind"] == vkind_name(o.vkind) && meta["trace"] == std::to_string(o.trace);
  printf("REPLAY kind=%s op=%s task=%d step=%d exact=%d trace=%llu pc=%s pc2=%s detail=%s\n", vkind_name(o.vkind), opAt(p, o.task, o.step).c_str(), o.task, o.step, exact ? 1 : 0, (unsigned long long)o.trace, symbol(g_shm->vpc[0]).c_str(), symbol(g_shm->vpc[1]).c_str(), o.detail.c_str());
  return o.vkind ? 1 : 0;
}
static int cmdSurvey(int argc, char** argv) { // survey N [filter]
  int n = atoi(argv[2]); const char* flt = argc > 3 ? argv[3] : ""; bool bad = argc > 4;
  for (size_t i = 0; i < ops().size(); i++) { if (!strstr(ops()[i].name, flt)) continue; int ok = 0, th = 0, b = 0, heavy = 0; u64 st = 0, al = 0, dr = 0, mx = 0; std::map<std::string, int> why; for (int v = 0; v < n; v++) { OpRef r; r.op = (int)i; r.variant = v; r.bad = bad; u64 k = g_heavyrefs; const OpOut* x = reference(r); if (!x) { if (g_heavyrefs != k) heavy++; else { b++; why[g_refs[opKey(r)].what]++; } continue; } if (x->status) { th++; why[x->what]++; } else ok++; st += x->steps; mx = std::max(mx, x->steps); al += x->allocs; dr += x->draws; }
    printf("%-26s ok %4d threw %4d bad %3d heavy %3d  steps %9.0f max %9llu allocs %7.0f draws %5.1f", ops()[i].name, ok, th, b, heavy, (double)st / n, (unsigned long long)mx, (double)al / n, (double)dr / n); for (auto& w : why) printf("  [%s x%d]", w.first.c_str(), w.second); printf("\n"); fflush(stdout); }
  return 0;
}
static int cmdFoot(int argc, char** argv) { // foot N: static words written by the library, by the operations that touch them
  int n = argc > 2 ? atoi(argv[2]) : 3; for (size_t i = 0; i < ops().size(); i++) if (!giant((int)i)) for (int v = 0; v < n; v++) { OpRef r; r.op = (int)i; r.variant = v; reference(r); }
  std::map<std::string, int> cl; for (auto& w : g_words) if (w.second.written) { std::string s; for (int o : w.second.ops) { s += ops()[o].name; s += " "; } cl[s]++; } for (auto& c : cl) printf("%d words: %s\n", c.second, c.first.c_str()); printf("words %zu\n", g_words.size()); return 0; }
static int cmdOne(int argc, char** argv) { // one PROFILE SEED INDEX: run one seed, print the outcome
  const Profile* pf = findProfile(argv[2]); u64 seed = g_master = strtoull(argv[3], 0, 10), i = strtoull(argv[4], 0, 10); u64 rs = mix(mix(seed, hstr(argv[2])), i); Plan p; p.prof = argv[2]; p.seed = rs; if (!makePlan(*pf, rs, i, p) || !bindRefs(p)) { printf("skipped\n"); return 0; } printf("%s", planText(p).c_str()); for (int k = 0; k < (argc > 5 ? atoi(argv[5]) : 2); k++) { Outcome o = execPlan(p); printf("-> %s %s trace %llx sched %llx steps %llu\n", vkind_name(o.vkind), o.broken ? o.why.c_str() : o.detail.c_str(), (unsigned long long)o.trace, (unsigned long long)g_shm->st.schedHash, (unsigned long long)g_shm->st.steps); } return 0;
}
static int cmdDeterminism(int argc, char** argv) { // determinism PROFILE SEED N : run N plans twice each, compare traces
  const Profile* pf = findProfile(argv[2]); u64 seed = g_master = strtoull(argv[3], 0, 10); int n = atoi(argv[4]); int bad = 0, done = 0; for (int i = 0; i < n; i++) { u64 rs = mix(mix(seed, hstr(argv[2])), i); Plan p; p.prof = argv[2]; p.seed = rs; if (!makePlan(*pf, rs, i, p) || !bindRefs(p)) continue; Outcome a = execPlan(p); u64 st = g_shm->st.steps, sh = g_shm->st.schedHash; Outcome b = execPlan(p); done++; if (a.trace != b.trace || a.vkind != b.vkind || st != g_shm->st.steps || sh != g_shm->st.schedHash) { bad++; printf("diverged at %d\n", i); } } printf("determinism %s: %d plans run twice, %d diverged\n", argv[2], done, bad); return bad ? 1 : 0;
}
int main(int argc, char** argv) {
  rt_init(); g_shm = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_cov = (u8*)mmap(nullptr, COV, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); setlinebuf(stdout); signal(SIGPIPE, SIG_IGN); signal(SIGALRM, watch);
  std::string c = argc > 1 ? argv[1] : ""; if (c == "worker" && argc >= 11) return cmdWorker(argc, argv); if (c == "replay" && argc > 2) return cmdReplay(argc, argv); if (c == "survey" && argc > 2) return cmdSurvey(argc, argv); if (c == "foot") return cmdFoot(argc, argv); if (c == "one" && argc > 4) return cmdOne(argc, argv); if (c == "determinism" && argc > 4) return cmdDeterminism(argc, argv); if (c == "ops") { for (auto& o : ops()) printf("%s %d %d\n", o.name, o.group, o.weight); return 0; }
  if (c == "profiles") { listProfiles(); return 0; } fprintf(stderr, "usage: sim worker|replay|survey|one|determinism|ops\n"); return 3;
}
