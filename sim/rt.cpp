// Simulation runtime (not instrumented). See rt.h and DESIGN.md.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <new>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <random>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <signal.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>

extern "C" char __data_start; extern "C" char _end;
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
#define RAWCPY __real_memcpy
#define RAWSET __real_memset

namespace sim {

Task* g_cur = nullptr; Task g_task[MAXT]; Result* g_res = nullptr; Checks g_chk; EnvPlan g_env; SchedPlan g_sched; bool g_measureOnly = false;
static bool g_simOn = false, g_booted = false; static int g_ntasks = 0; static volatile int g_coordGo = 0; static Rng g_srng, g_erng, g_frng; static u64 g_tlsSize = 0;
static bool g_sharedInputs = false; static u64 g_serial = 0; static u64 g_clock = 1700000000ull * 1000000000ull; static u64 g_trace = 0;
static pthread_key_t g_key; static bool g_keyOk = false;

const char* vkind_name(int k) { static const char* n[] = { "none","result-mismatch","data-race","input-written","crash","wild-access","deadlock","step-limit","leak","bad-value","terminate","blocked-by-stalled-caller","bad-free","fp-environment","nondeterministic","timeout" }; return n[k]; }

// ------------------------------------------------------------------ memory layout
static const u64 ARENA_BASE = 0x100000000000ull, ARENA_SIZE = 64ull << 20; static const int STATIC_ARENA = 2 * MAXT + 1, NARENA = 2 * MAXT + 2; // heaps, inputs, shared inputs, blocks made by static initialisers
static const u64 ARENA_SPAN = ARENA_SIZE * NARENA;
static const u64 HARN_BASE = 0x140000000000ull, HARN_SIZE = 4ull << 30;
static const u64 VALID_BASE = 0x150000000000ull;   // 1 byte per 8
static const u64 RACE_BASE = 0x160000000000ull;    // 64 bytes per 8
static const u64 GRACE_BASE = 0x170000000000ull;   // race cells of globals
static const u64 STACK_BASE = 0x180000000000ull, STACK_STRIDE = 8ull << 20, STACK_LEN = 4ull << 20;

struct Cell { u32 w; u8 wt, wmask, rsv[2]; u64 wpc; u32 r[MAXT]; u8 rmask[MAXT]; u64 rpc; };
static_assert(sizeof(Cell) == 64, "cell");

struct Hdr { u64 total; u32 magic; u32 state; u64 serial; u64 pc; Hdr* next; u64 size; u64 task; u64 pad; };
static_assert(sizeof(Hdr) == 64, "hdr");
struct Mini { u32 magic, back; u64 size; };
static const u32 HM = 0x51A7E0D1, MM = 0x3C0FFEE3; static const int NCLASS = 160;
struct Arena { u64 base, cur, end; Hdr* head[NCLASS]; Hdr* tail[NCLASS]; int idx; long liveBlocks, liveBytes; };
static Arena g_arena[NARENA + 1]; static bool g_memInit = false;
static inline u8* validp(u64 a) { return (u8*)(VALID_BASE + ((a - ARENA_BASE) >> 3)); }

static void die(const char* m) { ssize_t r = write(2, m, strlen(m)); (void)r; _exit(97); }
static void mapfix(u64 a, u64 len) { void* p = mmap((void*)a, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void*)a) die("sim: cannot map fixed region\n"); }
static void mem_init() {
  if (g_memInit) return; g_memInit = true;
  mapfix(ARENA_BASE, ARENA_SPAN); mapfix(HARN_BASE, HARN_SIZE); mapfix(VALID_BASE, ARENA_SPAN / 8); mapfix(RACE_BASE, ARENA_SPAN * 8);
  u64 glen = ((u64)&_end - ((u64)&__data_start & ~7ull)) + 4096; mapfix(GRACE_BASE, (glen * 8 + 4095) & ~4095ull);
  for (int i = 0; i < MAXT; i++) mapfix(STACK_BASE + i * STACK_STRIDE, STACK_LEN);
  for (int i = 0; i < NARENA; i++) { g_arena[i].base = g_arena[i].cur = ARENA_BASE + i * ARENA_SIZE; g_arena[i].end = g_arena[i].base + ARENA_SIZE; g_arena[i].idx = i; }
  Arena& h = g_arena[NARENA]; h.base = h.cur = HARN_BASE; h.end = HARN_BASE + HARN_SIZE; h.idx = NARENA;
}
static inline int cls(u64& sz) { // rounds sz up, returns class
  if (sz < 16) sz = 16;
  if (sz <= 1024) { sz = (sz + 15) & ~15ull; return (int)(sz / 16); }
  int b = 63 - __builtin_clzll(sz - 1); u64 step = 1ull << (b - 2); u64 r = (sz + step - 1) & ~(step - 1); sz = r;
  int bb = 63 - __builtin_clzll(r - 1); int c = 65 + (bb - 10) * 4 + (int)((r - 1 - (1ull << bb)) >> (bb - 2)); return c < NCLASS ? c : NCLASS - 1;
}
static void fill_mem(u8* p, u64 n, int kind, u64 salt) {
  switch (kind) {
  case 0: RAWSET(p, 0, n); break; case 1: RAWSET(p, 0xA5, n); break; case 2: RAWSET(p, 0xFF, n); break;
  case 3: { u64 s = mix(g_env.seed, salt); u64 i = 0; for (; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; RAWCPY(p + i, &s, 8); } for (; i < n; i++) p[i] = (u8)(s >> (8 * (i & 7))); break; }
  case 4: { double d = 1.0e5 + (double)(salt % 1000); u64 i = 0; for (; i + 8 <= n; i += 8) { d += 0.37; RAWCPY(p + i, &d, 8); } for (; i < n; i++) p[i] = 0x40; break; }
  case 5: { u32 v = (u32)(salt % 5) + 1; u64 i = 0; for (; i + 4 <= n; i += 4) { RAWCPY(p + i, &v, 4); } for (; i < n; i++) p[i] = 1; break; }
  default: break;
  }
}
static void race_reset(u64 a, u64 n);
static bool g_fresh; // no reuse of freed blocks (inputs made while the input area is watched)
static void* arena_alloc(Arena& A, u64 size, u64 align, u64 pc) {
  u64 want = size; int c; u64 payload = size; if (align > 16) payload += align; c = cls(payload);
  bool tracked = A.idx < NARENA; Hdr* h = nullptr;
  int reuse = g_fresh ? 2 : tracked ? g_env.reuse : 0;
  if (align <= 16 && reuse != 2) {
    Hdr** pp = &A.head[c]; Hdr* prev = nullptr; int guard = 0;
    while (*pp && guard++ < 8) { if ((*pp)->total - sizeof(Hdr) - 32 >= payload) { h = *pp; *pp = h->next; if (A.tail[c] == h) A.tail[c] = prev; break; } prev = *pp; pp = &(*pp)->next; }
  }
  if (!h) {
    u64 total = sizeof(Hdr) + 16 + payload + 16; if (A.cur + total > A.end) { if (g_simOn) _exit(98); return nullptr; } // simulated memory exhausted: the run is discarded, never judged
    h = (Hdr*)A.cur; A.cur += total; h->total = total;
  }
  u64 p = (u64)h + sizeof(Hdr) + 16; if (align > 16) p = (p + align - 1) & ~(align - 1);
  h->magic = HM; h->state = 1; h->serial = ++g_serial; h->pc = pc; h->next = nullptr; h->size = want; h->task = g_cur ? g_cur->id : 99; h->pad = p;
  Mini* m = (Mini*)(p - 16); m->magic = MM; m->back = (u32)(p - (u64)h); m->size = want;
  A.liveBlocks++; A.liveBytes += (long)want;
  if (tracked) {
    fill_mem((u8*)p, want, g_env.fill, h->serial);
    u8* v = validp(p); u64 full = want >> 3; RAWSET(v, 8, full); if (want & 7) { v[full] = (u8)(want & 7); full++; } v[full] = 0;
    if (p - 16 >= A.base) { validp(p - 16)[0] = 0; validp(p - 16)[1] = 0; }
    if (g_chk.race) race_reset(p, want);
  }
  return (void*)p;
}
static void race_range(Task* t, u64 a, u64 n, bool wr, u64 pc);
static bool in_arena(u64 a) { return a - ARENA_BASE < ARENA_SPAN; }
static void arena_free(void* q, u64 pc) {
  if (!q) return; u64 p = (u64)q;
  bool tracked = in_arena(p); if (!tracked && !(p - HARN_BASE < HARN_SIZE)) { if (g_simOn) violation(V_BADFREE, "free of a pointer that was never allocated"); return; }
  Mini* m = (Mini*)(p - 16); Hdr* h = m->magic == MM ? (Hdr*)(p - m->back) : nullptr;
  if (!h || h->magic != HM || h->pad != p) { if (g_simOn && tracked) violation(V_BADFREE, "free of a pointer that is not the start of a live block"); return; }
  if (h->state != 1) { if (g_simOn && tracked) violation(V_BADFREE, "double free of a block of %llu bytes", (unsigned long long)h->size); return; }
  Arena& A = tracked ? g_arena[(p - ARENA_BASE) / ARENA_SIZE] : g_arena[NARENA];
  if (tracked) {
    if (g_chk.race && g_cur && g_cur->inlib) race_range(g_cur, p, h->size, true, pc);
    RAWSET(validp(p), 0, (h->size + 7) >> 3);
    if (g_env.freefill == 1) RAWSET(q, 0xDD, h->size); else if (g_env.freefill == 2) fill_mem((u8*)q, h->size, 3, h->serial + 77);
  }
  h->state = 2; A.liveBlocks--; A.liveBytes -= (long)h->size; h->next = nullptr;
  if (tracked && g_env.reuse == 2) return;
  u64 payload = h->total - sizeof(Hdr) - 32; u64 r = payload; int c = cls(r);
  if (tracked && g_env.reuse == 1) { if (A.tail[c]) A.tail[c]->next = h; else A.head[c] = h; A.tail[c] = h; }
  else { h->next = A.head[c]; A.head[c] = h; if (!A.tail[c]) A.tail[c] = h; }
}
static u64 block_size(void* p) { return ((Mini*)((u64)p - 16))->size; }

static Arena& cur_arena() {
  Task* t = g_cur; if (!g_booted) return g_arena[STATIC_ARENA]; if (!t || !g_simOn) return g_sharedInputs ? g_arena[2 * MAXT] : g_arena[NARENA];
  if (t->nolib) return g_arena[NARENA];
  if (t->inlib || t->target == TG_HEAP) return g_arena[t->id];
  if (t->target == TG_INPUT) return g_sharedInputs ? g_arena[2 * MAXT] : g_arena[MAXT + t->id];
  return g_arena[NARENA];
}
// Functions of the third-party linear algebra library (not part of the code under test); see known-findings.txt.
static u64 g_forLo[4096], g_forHi[4096]; static int g_nfor = 0; static u64 g_unwLo[64], g_unwHi[64]; static int g_nunw = 0; // g_unw*: the unwinder of the C++ runtime
static void load_foreign() {
  int fd = open("/proc/self/exe", O_RDONLY); if (fd < 0) return; struct stat sb; if (fstat(fd, &sb)) { close(fd); return; }
  u8* m = (u8*)mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (m == MAP_FAILED) return;
  Elf64_Ehdr* eh = (Elf64_Ehdr*)m; { Elf64_Phdr* ph = (Elf64_Phdr*)(m + eh->e_phoff); for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_TLS) g_tlsSize = (ph[i].p_memsz + ph[i].p_align - 1) & ~(ph[i].p_align - 1); } Elf64_Shdr* sh = (Elf64_Shdr*)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym* s = (Elf64_Sym*)(m + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *s; const char* str = (const char*)(m + sh[sh[i].sh_link].sh_offset);
    for (size_t k = 0; k < n && g_nfor < 4096; k++) if ((s[k].st_info & 15) == STT_FUNC && s[k].st_size) { const char* nm = str + s[k].st_name; if (!strncmp(nm, "_ZN5Eigen", 9) || !strncmp(nm, "_ZNK5Eigen", 10)) { g_forLo[g_nfor] = s[k].st_value; g_forHi[g_nfor] = s[k].st_value + s[k].st_size; g_nfor++; } else if (g_nunw < 64 && (!strncmp(nm, "_Unwind_", 8) || !strncmp(nm, "__register_frame", 16) || !strncmp(nm, "__deregister_frame", 18))) { g_unwLo[g_nunw] = s[k].st_value; g_unwHi[g_nunw] = s[k].st_value + s[k].st_size; g_nunw++; } }
  }
  munmap(m, sb.st_size);
}
static bool foreign_pc(u64 pc) { for (int i = 0; i < g_nfor; i++) if (pc - g_forLo[i] < g_forHi[i] - g_forLo[i]) return true; return false; }
static bool unwinder_pc(u64 pc) { for (int i = 0; i < g_nunw; i++) if (pc - g_unwLo[i] < g_unwHi[i] - g_unwLo[i]) return true; return false; }
static bool foreign_caller() {
  u64 fp = (u64)__builtin_frame_address(0); for (int k = 0; k < 30; k++) { if (fp & 7 || fp - STACK_BASE >= STACK_STRIDE * MAXT) return false; u64 nx = ((u64*)fp)[0], ra = ((u64*)fp)[1]; if (foreign_pc(ra - 1)) return true; if (nx <= fp) return false; fp = nx; } return false;
}
bool g_footOn = false; u8* g_cov = nullptr;
static void note_site(u64 idx) { // which call stacks allocate, and when
  u64 h = 0, fp = (u64)__builtin_frame_address(0); for (int k = 0; k < 10; k++) { if (fp & 7 || fp - STACK_BASE >= STACK_STRIDE * MAXT) break; u64 nx = ((u64*)fp)[0]; h = mix(h, ((u64*)fp)[1]); if (nx <= fp) break; fp = nx; }
  Result* r = g_res; u32 i = 0; for (; i < r->nsite; i++) if (r->site[i].h == h) { r->site[i].last = (u32)idx; return; } if (i < (u32)MAXSITE) { r->site[i] = Result::Site{ h, (u32)idx, (u32)idx }; r->nsite++; } else if (mix(h, idx) % (idx + 1) < (u32)MAXSITE) r->site[mix(idx, h) % MAXSITE] = Result::Site{ h, (u32)idx, (u32)idx };
}
static bool inject(u64 size) {
  Task* t = g_cur; if (!t || !g_simOn || !t->inlib || t->nolib) return false;
  t->allocs++; if (g_res) g_res->st.allocs++;
  if (g_footOn && g_res) note_site(t->allocs);
  if (!t->armed) return false; u64 i = ++t->allocIdx; bool f = false;
  switch (t->fp.kind) {
  case 1: f = i == t->fp.n; break; case 2: f = i >= t->fp.n; break; case 3: f = t->frng.chance(t->fp.p); break;
  case 4: f = size >= t->fp.n; break; case 5: f = i == t->fp.n || i == t->fp.n2; break; case 6: f = i == t->fp.n; break; }
  if (f && t->fp.kind != 6 && foreign_caller()) { if (g_res) g_res->st.foreignSkipped++; f = false; }
  if (f) { t->fired++; if (g_res) g_res->st.fired[t->fp.kind & 7]++; rt_trace(mix(0xFA17, i)); }
  return f;
}
static void* sim_malloc(u64 size, u64 align, u64 pc) {
  mem_init(); if (inject(size)) return nullptr;
  if (size > (1ull << 40)) return nullptr;
  return arena_alloc(cur_arena(), size, align, pc);
}
u64 rt_serial() { return g_serial; }
u64 arena_mark(int t) { return (u64)g_arena[t].liveBlocks; } // live heap blocks of a task
u64 rt_live_blocks() { long n = 0; for (int i = 0; i < MAXT; i++) n += g_arena[i].liveBlocks; return n; }
u64 rt_live_bytes() { long n = 0; for (int i = 0; i < MAXT; i++) n += g_arena[i].liveBytes; return n; }
void rt_describe_live(char* buf, size_t n, u64 since) {
  size_t o = 0; buf[0] = 0; int shown = 0;
  for (int i = 0; i < MAXT && shown < 4; i++) for (u64 a = g_arena[i].base + (g_env.layout & 0xFFFF0); a < g_arena[i].cur && shown < 4;) { Hdr* h = (Hdr*)a; if (h->magic != HM) break; if (h->state == 1 && h->serial > since) { o += snprintf(buf + o, n - o, " [%llu bytes from pc=0x%llx]", (unsigned long long)h->size, (unsigned long long)h->pc); shown++; } a += h->total; }
}
void rt_shared_inputs(bool on) { g_sharedInputs = on; }
static u64 hash_range(u64 a, u64 b) { u64 h = 0x1234567; for (; a + 8 <= b; a += 8) { u64 v; RAWCPY(&v, (void*)a, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
u64 input_mark(int t) { return g_arena[MAXT + t].cur; }
u64 input_hash(int t, u64 upto) { Arena& A = g_arena[MAXT + t]; return hash_range(A.base, upto); }
void rt_input_target(bool on) { if (g_cur) g_cur->target = on ? TG_INPUT : TG_HEAP; g_fresh = on; }
u64 shared_hash() { Arena& A = g_arena[2 * MAXT]; return hash_range(A.base, A.cur); }
void arena_input_reset(int t) { // all blocks dead: start again at the same addresses
  Arena& A = g_arena[MAXT + t]; if (A.liveBlocks != 0) return; A.cur = A.base + (g_env.layout & 0xFFFF0); RAWSET(A.head, 0, sizeof A.head); RAWSET(A.tail, 0, sizeof A.tail);
}

// ------------------------------------------------------------------ violation / trace
void rt_trace(u64 v) { g_trace = mix(g_trace, v); }
void violation(int kind, const char* fmt, ...) {
  if (g_cur) { g_cur->inlib = false; g_cur->nolib++; }
  Result* r = g_res; va_list ap; va_start(ap, fmt);
  if (r && r->vkind == 0) { r->vkind = kind; vsnprintf(r->detail, sizeof r->detail, fmt, ap); if (g_cur) { r->vtask = g_cur->id; r->vstep = g_cur->curStep; } r->traceHash = g_trace; r->state = 2; }
  else if (!r) { vfprintf(stderr, fmt, ap); }
  va_end(ap); _exit(1);
}

// ------------------------------------------------------------------ baton
static void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void park(volatile int* go) { while (__atomic_load_n(go, __ATOMIC_ACQUIRE) == 0) futex_wait(go, 0); __atomic_store_n(go, 0, __ATOMIC_RELAXED); }
static void wake(volatile int* go) { __atomic_store_n(go, 1, __ATOMIC_RELEASE); futex_wake(go); }

// explicit schedule: per-task cursor
static int g_xcur[MAXT];
static u64 x_next(Task* t) { // step of the next explicit switch of t, or ~0
  int& k = g_xcur[t->id];
  while (k < g_sched.nsw && (g_sched.sw[k].from != t->id || g_sched.sw[k].step < t->steps)) k++;
  return k < g_sched.nsw ? g_sched.sw[k].step : ~0ull;
}
static int x_take(Task* t) { u64 s = x_next(t); if (s != t->steps) return -1; int to = g_sched.sw[g_xcur[t->id]].to; g_xcur[t->id]++; return to; }

static void plan_next(Task* t) {
  u64 n = ~0ull;
  switch (g_sched.policy) {
  case P_RANDOM: case P_BURST: n = t->steps + 1 + (u64)(-std::log(1.0 - g_srng.unit()) * (double)g_sched.mean); break;
  case P_STALL: n = t->steps + 1 + (u64)(-std::log(1.0 - g_srng.unit()) * (double)g_sched.mean); if (t->id == g_sched.stallTask && t->steps < g_sched.stallAt && n > g_sched.stallAt) n = g_sched.stallAt; break;
  case P_PCT: n = t->steps + 1 + (u64)(g_srng.unit() * (double)g_sched.horizon * 2 / (g_sched.depth + 1)); break;
  case P_EXPLICIT: n = x_next(t); break;
  default: break;
  }
  u64 lim = t->opStepLimit ? t->opBaseSteps + t->opStepLimit : g_chk.stepLimit;
  t->nextSlow = n < lim ? n : lim;
}
static int runnable_list(int* out, int except) { int n = 0; for (int i = 0; i < g_ntasks; i++) if (i != except && g_task[i].state == 1) out[n++] = i; return n; }
static void record_switch(Task* from, int to) {
  Result* r = g_res; r->st.switches++; r->st.schedHash = mix(r->st.schedHash, mix((u64)from->id * 131 + to, from->steps)); rt_trace(mix(from->steps, (u64)from->id * 31 + to));
  if (r->nsw < MAXSW) { r->sw[r->nsw++] = Switch{ from->id, from->steps, to }; } else r->swOverflow = 1;
}
static void switch_to(int to) {
  Task* me = g_cur; if (me->id == to) return; record_switch(me, to); Task* n = &g_task[to]; g_cur = n; wake(&n->go); park(&me->go); g_cur = me;
}
static void finish_switch(Task* me, int to) { record_switch(me, to); g_cur = &g_task[to]; wake(&g_task[to].go); }
static int pick(Task* t, bool forced) { // choose next runnable (may return t itself when !forced)
  int l[MAXT]; int n = runnable_list(l, forced ? t->id : -1); if (n == 0) return -1;
  switch (g_sched.policy) {
  case P_EXPLICIT: { int to = x_take(t); if (to >= 0 && to < g_ntasks && g_task[to].state == 1 && !(forced && to == t->id)) return to; return forced ? l[0] : t->id; }
  case P_SERIAL: return forced ? l[0] : t->id;
  case P_PCT: { int b = l[0]; for (int i = 1; i < n; i++) if (g_task[l[i]].pctPrio > g_task[b].pctPrio) b = l[i]; return b; }
  default: return l[g_srng.below(n)];
  }
}
static void unstall() { for (int i = 0; i < g_ntasks; i++) if (g_task[i].state == 4) { g_task[i].state = 1; } }
extern bool g_blockedIsViolation; bool g_blockedIsViolation = false;
static int once_owner(void* what); // who is initialising the function-local static (or call_once) waited for, -1 if it is something else
static int pick_forced(Task* t) {
  int to = pick(t, true); if (to >= 0) return to;
  bool anyBlocked = false, anyStalled = false; for (int i = 0; i < g_ntasks; i++) { if (g_task[i].state == 2 && !g_task[i].libThread) anyBlocked = true; if (g_task[i].state == 4) anyStalled = true; }
  if (anyStalled && anyBlocked) for (int i = 0; i < g_ntasks; i++) if (g_task[i].state == 2) { int o = once_owner(g_task[i].waitOn); if (o >= 0 && g_task[o].state == 4) { g_task[o].state = 1; return o; } } // the language's one-time initialisation waits by design: the initialising caller is let go on
  if (anyStalled) { if (anyBlocked && g_blockedIsViolation) violation(V_BLOCKED, "a caller suspended inside a call keeps another from completing (waits on %p)", g_cur->waitOn); unstall(); to = pick(t, true); if (to >= 0) return to; }
  return -1;
}
static int g_pctLow = 0;
static void slow(Task* t) {
  u64 lim = t->opStepLimit ? t->opBaseSteps + t->opStepLimit : g_chk.stepLimit;
  if (t->steps >= lim) violation(V_STEPS, "no completion within %llu steps (reference needs far fewer)", (unsigned long long)(lim - t->opBaseSteps));
  if (!g_simOn || g_ntasks < 2) { plan_next(t); return; }
  if (g_sched.policy == P_STALL && t->id == g_sched.stallTask && t->steps >= g_sched.stallAt && t->state == 1 && g_sched.stallAt) {
    g_sched.stallAt = 0; g_res->st.stalls++; t->state = 4; int to = pick_forced(t); if (to < 0) { t->state = 1; } else if (to != t->id) { switch_to(to); } plan_next(t); return;
  }
  if (g_sched.policy == P_PCT) t->pctPrio = --g_pctLow;
  int to = pick(t, false); plan_next(t); if (to >= 0 && to != t->id) { switch_to(to); }
}
static void locked(Task* t) { t->locks++; if (g_sched.policy == P_STALL && t->id == g_sched.stallTask && g_sched.stallLock && t->inlib && --g_sched.stallLock == 0 && t->state == 1 && g_ntasks > 1) { g_res->st.stalls++; t->state = 4; int to = pick_forced(t); if (to < 0) t->state = 1; else if (to != t->id) switch_to(to); } }
static bool written_before(u64 a);
static inline void shared_point(Task* t, u64 a = 0, bool wr = true) {
  g_res->st.sharedAccess++;
  if (g_ntasks < 2 || (g_sched.policy != P_RANDOM && g_sched.policy != P_STALL)) return;
  double p = g_sched.pShared; if (a && !wr && !written_before(a)) p *= 0.02; if (g_res->st.switches > 1500) p *= 0.02;
  if (g_srng.chance(p)) { int to = pick(t, false); if (to >= 0 && to != t->id) switch_to(to); }
}
void rt_yield(int weight) {
  Task* t = g_cur; if (!t || !g_simOn || g_ntasks < 2) return; t->steps++;
  bool lib = t->inlib; t->inlib = false;
  if (t->steps >= t->nextSlow) slow(t);
  else if (g_sched.policy == P_RANDOM || g_sched.policy == P_STALL || g_sched.policy == P_BURST) { if (g_srng.below(10) < (u32)weight) { int to = pick(t, false); if (to >= 0 && to != t->id) switch_to(to); } }
  t->inlib = lib;
}
static void block_on(void* what) { Task* t = g_cur; t->state = 2; t->waitOn = what; int to = pick_forced(t); if (to < 0) violation(V_DEADLOCK, "every simulated thread is blocked (task %d waits)", t->id); switch_to(to); }
static void unblock(void* what, bool all) { for (int i = 0; i < g_ntasks; i++) if (g_task[i].state == 2 && g_task[i].waitOn == what) { g_task[i].state = 1; g_task[i].waitOn = nullptr; if (!all) return; } }

// ------------------------------------------------------------------ happens-before
struct Sync { u64 key; u32 vc[MAXT]; int owner, count, readers; u64 aux; bool once; };
static Sync g_sync[4096]; static int g_nsync = 0; static short g_shash[8192];
static Sync* sync_of(const void* p) {
  u64 k = (u64)p; u32 h = (u32)(mix(k, 7) & 8191); while (g_shash[h]) { Sync* s = &g_sync[g_shash[h] - 1]; if (s->key == k) return s; h = (h + 1) & 8191; }
  if (g_nsync >= 4095) die("sim: too many sync objects\n");
  Sync* s = &g_sync[g_nsync++]; g_shash[h] = (short)g_nsync; RAWSET(s, 0, sizeof *s); s->key = k; s->owner = -1; return s;
}
static int once_owner(void* what) { Sync* s = what ? sync_of(what) : nullptr; return s && s->once ? s->owner : -1; }
static void acquire(Task* t, Sync* s) { for (int i = 0; i < MAXT; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static void release(Task* t, Sync* s) { for (int i = 0; i < MAXT; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; t->vc[t->id]++; }

static u64 g_dlo, g_dlen;
static inline Cell* cell_of(u64 g) { // g: 8-aligned address in arena or globals
  if (in_arena(g)) return (Cell*)(RACE_BASE + (g - ARENA_BASE) * 8); return (Cell*)(GRACE_BASE + (g - g_dlo) * 8);
}
static bool written_before(u64 a) { return !g_chk.race || cell_of(a & ~7ull)->w != 0; }
static void race_reset(u64 a, u64 n) { if (!n) return; u64 lo = a & ~7ull, hi = (a + n + 7) & ~7ull; for (u64 g = lo; g < hi; g += 8) { Cell* c = cell_of(g); if (c->w || c->rpc) RAWSET(c, 0, sizeof *c); } }
static void race_report(u64 a, u64 pc, bool wr, Cell* c, bool other_wr, int other) {
  g_res->vaddr = a; g_res->vpc[0] = pc; g_res->vpc[1] = other_wr ? c->wpc : c->rpc;
  violation(V_RACE, "unsynchronised %s by caller %d conflicts with %s by caller %d on %s memory 0x%llx", wr ? "write" : "read", g_cur->id, other_wr ? "write" : "read", other, in_arena(a) ? "heap" : "static", (unsigned long long)a);
}
static inline void race1(Task* t, u64 g, u8 mask, bool wr, u64 pc) {
  Cell* c = cell_of(g); int id = t->id; u32 ep = t->vc[id];
  if (c->w && c->wt != id && (c->wmask & mask) && c->w > t->vc[c->wt]) race_report(g, pc, wr, c, true, c->wt);
  if (wr) {
    for (int u = 0; u < g_ntasks; u++) if (u != id && c->r[u] > t->vc[u] && (c->rmask[u] & mask)) race_report(g, pc, wr, c, false, u);
    if (c->w == ep && c->wt == id) c->wmask |= mask; else { c->w = ep; c->wt = (u8)id; c->wmask = mask; } c->wpc = pc;
  } else { if (c->r[id] == ep) c->rmask[id] |= mask; else { c->r[id] = ep; c->rmask[id] = mask; } c->rpc = pc; }
}
static void race_range(Task* t, u64 a, u64 n, bool wr, u64 pc) {
  if (!n || g_ntasks < 2) return; u64 end = a + n;
  for (u64 g = a & ~7ull; g < end; g += 8) { u8 m = 0xFF; if (g < a) m &= (u8)(0xFF << (a - g)); if (g + 8 > end) m &= (u8)(0xFF >> (g + 8 - end)); race1(t, g, m, wr, pc); }
}
static void wild_check(u64 a, u64 n, bool wr, u64 pc) {
  u64 end = a + n; for (u64 g = a & ~7ull; g < end; g += 8) { u8 v = *validp(g); u64 need = end - g > 8 ? 8 : end - g; if (v < need) { g_res->vpc[0] = pc; g_res->vaddr = g;
    const char* what = "outside any live block"; 
    violation(V_WILD, "%s of %llu bytes at heap address 0x%llx, %s", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a, what); } }
}
static void foot(Task* t, u64 a, u64 n, bool wr) { // remember the word: state that outlives the call
  for (u64 g = a & ~7ull, e = 0; g < a + n && e < 4; g += 8, e++) {
    u64 key = (a - t->stackLo < t->stackLen ? (1ull << 60) + (t->tlsHi - g) : g) >> 3 << 1; Result* r = g_res; u32 i = 0; for (; i < r->nfoot; i++) if ((r->foot[i] & ~1ull) == key) { r->foot[i] |= wr; break; }
    if (i == r->nfoot && r->nfoot < (u32)MAXFOOT) r->foot[r->nfoot++] = key | wr; }
}
// the one place every instrumented access goes through
static inline __attribute__((always_inline)) void access(u64 a, u64 n, bool wr, u64 pc) {
  Task* t = g_cur; if (!t || !t->inlib) return;
  if (++t->steps >= t->nextSlow) slow(t);
  if (g_footOn) g_cov[(u32)(pc * 0x9E3779B97F4A7C15ull >> 40) & (COV - 1)] = 1;
  if (a - t->stackLo < t->stackLen) { if (g_footOn && a >= t->tlsLo && a < t->tlsHi) foot(t, a, n, wr); return; }
  u64 o = a - ARENA_BASE;
  if (o < ARENA_SPAN) {
    int ar = (int)(o / ARENA_SIZE);
    if (g_chk.wild) wild_check(a, n, wr, pc);
    if (ar >= MAXT && ar != STATIC_ARENA) { // inputs
      if (wr && g_chk.inputWrite) { g_res->vpc[0] = pc; g_res->vaddr = a; violation(V_INPUT_WRITE, "the library wrote to a caller's read-only input (%llu bytes)", (unsigned long long)n); }
      return;
    }
    if (g_footOn && ar == STATIC_ARENA) foot(t, a, n, wr);
    if (ar != t->id) shared_point(t, a, wr);
    if (g_chk.race) race_range(t, a, n, wr, pc);
    return;
  }
  if (a - g_dlo < g_dlen) {
    g_res->st.globalAccess++; if (g_footOn) foot(t, a, n, wr); shared_point(t, a, wr);
    if (g_chk.race) race_range(t, a, n, wr, pc);
    return;
  }
  if (a - STACK_BASE < STACK_STRIDE * MAXT) shared_point(t, 0, true);
}

// ------------------------------------------------------------------ run control
void rt_init() { load_foreign(); mem_init(); g_booted = true; g_dlo = (u64)&__data_start & ~7ull; g_dlen = (u64)&_end - g_dlo; }
static void key_dtor(void*);
void rt_child_begin(Result* r, const EnvPlan& e, const SchedPlan& s, const Checks& c, int nt) {
  g_res = r; g_env = e; g_sched = s; g_chk = c; g_srng = Rng(mix(s.seed, 0x5C4ED)); g_erng = Rng(mix(e.seed, 0xE47)); g_trace = 0; g_serial = 0; g_nsync = 0; RAWSET(g_shash, 0, sizeof g_shash); RAWSET(g_xcur, 0, sizeof g_xcur);
  g_clock = 1700000000ull * 1000000000ull + (e.clock ? (mix(e.seed, 3) % 1000000007ull) * 1000000ull : 0);
  for (int i = 0; i < NARENA; i++) { Arena& A = g_arena[i]; if (A.cur == A.base) A.cur = A.base + (e.layout & 0xFFFF0); }
  if (!g_keyOk) { pthread_key_create(&g_key, key_dtor); g_keyOk = true; }
  r->state = 1;
}
static void on_done(Task* t) {
  t->state = 3; Sync* s = sync_of(t); release(t, s); unblock(t, true);
  int to = pick_forced(t);
  if (to < 0) { bool blocked = false; for (int i = 0; i < g_ntasks; i++) if (g_task[i].state == 2) blocked = true; if (blocked) violation(V_DEADLOCK, "remaining simulated threads wait for ever"); g_cur = nullptr; wake(&g_coordGo); return; }
  finish_switch(t, to);
}
static int g_keyRound[MAXT];
static void key_dtor(void* v) { Task* t = (Task*)v; // runs after C++ thread_local destructors
  if (g_keyRound[t->id]++ < 1) { pthread_setspecific(g_key, v); return; } t->inlib = false; on_done(t); for (;;) pause(); } // never really exits: the process ends as a whole
static char g_alt[MAXT][16384];
static void* tramp(void* v) { Task* t = (Task*)v; stack_t ss; ss.ss_sp = g_alt[t->id]; ss.ss_size = sizeof g_alt[0]; ss.ss_flags = 0; sigaltstack(&ss, nullptr); t->tlsHi = (u64)__builtin_thread_pointer(); t->tlsLo = t->tlsHi - g_tlsSize; wake(&t->ready); park(&t->go); g_cur = t; pthread_setspecific(g_key, t); if (t->libThread) { t->inlib = true; } t->ret = t->fn(t->arg); t->inlib = false; return t->ret; }
static void start_task(int id, void* (*fn)(void*), void* arg, bool lib) {
  Task* t = &g_task[id]; *t = Task(); t->id = id; t->state = 1; t->fn = fn; t->arg = arg; t->libThread = lib; t->stackLo = STACK_BASE + id * STACK_STRIDE; t->stackLen = STACK_LEN; g_keyRound[id] = 0;
  for (int i = 0; i < MAXT; i++) t->vc[i] = 0; t->vc[id] = 1; t->pctPrio = 0;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)t->stackLo, STACK_LEN); extern int real_pthread_create(pthread_t*, pthread_attr_t*, void* (*)(void*), void*);
  Task* save = g_cur; if (save) save->nolib++; int rc = real_pthread_create(&t->th, &at, tramp, t); if (rc) die("sim: pthread_create failed\n");
  park(&t->ready); if (save) save->nolib--; // its start-up code has run: from here on only the baton holder executes
}
void rt_run_tasks(int nt, void* (*body)(void*)) {
  g_ntasks = nt; g_coordGo = 0; Rng r(mix(g_sched.seed, 0x9C7));
  for (int i = 0; i < nt; i++) start_task(i, body, (void*)(intptr_t)i, false);
  for (int i = 0; i < nt; i++) g_task[i].pctPrio = 1000 + (int)r.below(100000);
  g_pctLow = 0; g_simOn = true; for (int i = 0; i < nt; i++) plan_next(&g_task[i]);
  int first = 0;
  if (g_sched.policy == P_RANDOM || g_sched.policy == P_STALL || g_sched.policy == P_BURST) first = (int)g_srng.below(nt);
  else if (g_sched.policy == P_PCT) { for (int i = 1; i < nt; i++) if (g_task[i].pctPrio > g_task[first].pctPrio) first = i; }
  else if (g_sched.policy == P_EXPLICIT && g_sched.nsw > 0 && g_sched.sw[0].from == -1) { first = g_sched.sw[0].to < nt ? g_sched.sw[0].to : 0; }
  if (g_res->nsw < MAXSW) { g_res->sw[g_res->nsw++] = Switch{ -1, 0, first }; }
  rt_trace(first); g_cur = &g_task[first]; wake(&g_task[first].go); park(&g_coordGo); g_simOn = false; g_cur = nullptr;
  for (int i = 0; i < nt; i++) g_res->st.steps += g_task[i].steps;
  g_res->traceHash = g_trace;
}
__attribute__((noinline)) bool rt_readable(const void* p, size_t n) {
  u64 a = (u64)p; if (!n) return true; if (a < 4096) return false; Task* t = g_cur;
  if (in_arena(a)) { u64 end = a + n; for (u64 g = a & ~7ull; g < end; g += 8) { u64 need = end - g > 8 ? 8 : end - g; if (*validp(g) < need) return false; } return true; }
  if (a - STACK_BASE < STACK_STRIDE * MAXT) return t && a - t->stackLo < t->stackLen && a >= (u64)__builtin_frame_address(0); // own frames and thread-local storage, not frames already left
  return true;
}
__attribute__((noinline)) void rt_fill_stack(int pattern) {
  if (!pattern) return; const size_t N = 96 * 1024; volatile u8* p = (volatile u8*)__builtin_alloca(N);
  u64 s = mix(g_env.seed, pattern); double d = 1.0e3 + pattern;
  for (size_t i = 0; i < N; i += 8) { u64 v; switch (pattern) { case 1: v = 0; break; case 2: v = ~0ull; break; case 3: s = s * 6364136223846793005ull + 1442695040888963407ull; v = s; break; case 4: d += 0.5; RAWCPY(&v, &d, 8); break; default: v = 0x0000000300000002ull; } RAWCPY((void*)(p + i), &v, 8); }
  __asm__ volatile("" ::: "memory");
}
} // namespace sim
using namespace sim;

// ==================================================================== tsan interface
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access((u64)a, n, false, PC); } void __tsan_write##n(void* a) { access((u64)a, n, true, PC); } \
 void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true, PC); } \
 void __tsan_volatile_read##n(void* a) { access((u64)a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, true, PC); } \
 void __tsan_unaligned_volatile_read##n(void* a) { access((u64)a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access((u64)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access((u64)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) access((u64)a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access((u64)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static void atomic_pre(const volatile void* a, bool wr) {
  Task* t = g_cur; if (!t || !t->inlib) return; if (++t->steps >= t->nextSlow) slow(t); g_res->st.atomics++; if (g_footOn && ((u64)a - g_dlo < g_dlen)) foot(t, (u64)a, 1, wr); shared_point(t); Sync* s = sync_of((const void*)a); acquire(t, s); if (wr) release(t, s);
}
#define ATOM(bits, T) extern "C" { \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_pre(a, false); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_pre(a, true); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)(o + v); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)(o - v); return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)(o & v); return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)(o | v); return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)(o ^ v); return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_pre(a, true); T o = *a; *a = (T)~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { atomic_pre(a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { atomic_pre(a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { atomic_pre(a, true); T o = *a; if (o == e) *a = v; return o; } }
typedef unsigned char A8; typedef unsigned short A16; typedef unsigned int A32; typedef unsigned long A64;
ATOM(8, A8) ATOM(16, A16) ATOM(32, A32) ATOM(64, A64)

// ==================================================================== allocation
extern "C" {
// the whole program (library, libstdc++, libc) allocates from the simulated arenas
void* malloc(size_t n) { return sim_malloc(n, 16, PC); }
void free(void* p) { if (g_res) g_res->st.frees++; arena_free(p, PC); }
void* calloc(size_t a, size_t b) { u64 n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = sim_malloc(n, 16, PC); if (p) RAWSET(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return sim_malloc(n, 16, PC); void* q = sim_malloc(n, 16, PC); if (!q) return nullptr; u64 o = block_size(p); RAWCPY(q, p, o < n ? o : n); arena_free(p, PC); return q; }
int posix_memalign(void** o, size_t a, size_t n) { void* p = sim_malloc(n, a, PC); if (!p) return ENOMEM; *o = p; return 0; }
void* aligned_alloc(size_t a, size_t n) { return sim_malloc(n, a, PC); }
void* memalign(size_t a, size_t n) { return sim_malloc(n, a, PC); }
void* valloc(size_t n) { return sim_malloc(n, 4096, PC); } void* pvalloc(size_t n) { return sim_malloc(n, 4096, PC); }
size_t malloc_usable_size(void* p) { return p ? block_size(p) : 0; }
}
static void* opnew(u64 n, u64 al, u64 pc) { void* p = sim_malloc(n, al, pc); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return opnew(n, 16, PC); }
void* operator new[](size_t n) { return opnew(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return opnew(n, (u64)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return opnew(n, (u64)a, PC); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_malloc(n, (u64)a, PC); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_malloc(n, (u64)a, PC); }
#define DEL { if (g_res) g_res->st.frees++; arena_free(p, PC); }
void operator delete(void* p) noexcept DEL
void operator delete[](void* p) noexcept DEL
void operator delete(void* p, size_t) noexcept DEL
void operator delete[](void* p, size_t) noexcept DEL
void operator delete(void* p, const std::nothrow_t&) noexcept DEL
void operator delete[](void* p, const std::nothrow_t&) noexcept DEL
void operator delete(void* p, std::align_val_t) noexcept DEL
void operator delete[](void* p, std::align_val_t) noexcept DEL
void operator delete(void* p, size_t, std::align_val_t) noexcept DEL
void operator delete[](void* p, size_t, std::align_val_t) noexcept DEL

extern "C" {
// exception objects come from a reserve in real systems; never failed here
void* __real___cxa_allocate_exception(size_t); void* __wrap___cxa_allocate_exception(size_t n) { Task* t = g_cur; if (t) t->nolib++; void* p = __real___cxa_allocate_exception(n); if (t) t->nolib--; return p; }

int __real___cxa_thread_atexit(void (*)(void*), void*, void*); int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d) { Task* t = g_cur; if (t) t->nolib++; int r = __real___cxa_thread_atexit(f, o, d); if (t) t->nolib--; return r; } // glibc's own bookkeeping, not the library's
int __real___cxa_atexit(void (*)(void*), void*, void*); int __wrap___cxa_atexit(void (*f)(void*), void* o, void* d) { Task* t = g_cur; if (t) t->nolib++; int r = __real___cxa_atexit(f, o, d); if (t) t->nolib--; return r; }

// ==================================================================== bulk copies
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  Task* t = g_cur; if (t && t->inlib && !t->nolib && n) {
    access((u64)s, n, false, PC); access((u64)d, n, true, PC);
    bool shared = ((u64)d - g_dlo < g_dlen) || ((u64)s - g_dlo < g_dlen) || (in_arena((u64)d) && ((u64)d - ARENA_BASE) / ARENA_SIZE != (u64)t->id);
    if (shared && n > 8) { size_t h = (n / 2) & ~7ull; RAWCPY(d, s, h); g_res->st.tornCopies++; access((u64)d + h, n - h, true, PC); RAWCPY((char*)d + h, (const char*)s + h, n - h); return d; }
  }
  return RAWCPY(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  Task* t = g_cur; if (t && t->inlib && !t->nolib && n) { access((u64)s, n, false, PC); access((u64)d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) { Task* t = g_cur; if (t && t->inlib && !t->nolib && n) access((u64)d, n, true, PC); return RAWSET(d, c, n); }

// ==================================================================== function-local statics
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) {
  Task* t = g_cur; volatile u8* b = (volatile u8*)g;
  if (!t || !g_simOn) { if (b[0]) return 0; b[1] = 1; return 1; }
  bool lib = t->inlib; t->steps++; g_res->st.guards++; if (lib) shared_point(t);
  for (;;) {
    if (b[0]) { acquire(t, sync_of(g)); return 0; }
    if (!b[1]) { b[1] = 1; Sync* s = sync_of(g); s->owner = t->id; s->once = true; acquire(t, s); return 1; }
    if (sync_of(g)->owner == t->id) violation(V_DEADLOCK, "recursive initialisation of a function-local static");
    block_on(g);
  }
}
void __wrap___cxa_guard_release(u64* g) { volatile u8* b = (volatile u8*)g; b[1] = 0; b[0] = 1; Task* t = g_cur; if (t && g_simOn) { Sync* s = sync_of(g); s->owner = -1; release(t, s); unblock(g, true); } }
void __wrap___cxa_guard_abort(u64* g) { volatile u8* b = (volatile u8*)g; b[1] = 0; Task* t = g_cur; if (t && g_simOn) { Sync* s = sync_of(g); s->owner = -1; release(t, s); unblock(g, true); } }

// ==================================================================== pthread primitives
#define SIMT (g_cur && g_simOn)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!SIMT) return 0; Task* t = g_cur;
  if (unwinder_pc(PC)) { t->unwSaved[t->unwDepth++ & 3] = t->inlib; t->inlib = false; return 0; } // the unwinder's own lock: its section runs without preemption and orders nothing
  Sync* s = sync_of(m); t->steps++; g_res->st.locks++; if (t->inlib) shared_point(t);
  int kind = m->__data.__kind & 3;
  while (s->owner >= 0 || s->readers > 0) { if (s->owner == t->id) { if (kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; } if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; violation(V_DEADLOCK, "a caller locks a mutex it already holds"); } block_on(m); }
  s->owner = t->id; s->count = 1; acquire(t, s); locked(t); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!SIMT) return 0; Task* t = g_cur; Sync* s = sync_of(m); t->steps++; g_res->st.locks++; if (t->inlib) shared_point(t);
  if (s->owner >= 0) { if (s->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; } return EBUSY; } s->owner = t->id; s->count = 1; acquire(t, s); locked(t); return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { int r = __wrap_pthread_mutex_trylock(m); return r ? ETIMEDOUT : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!SIMT) return 0; Task* t = g_cur;
  if (t->unwDepth > 0 && unwinder_pc(PC)) { t->inlib = t->unwSaved[--t->unwDepth & 3]; return 0; }
  Sync* s = sync_of(m); t->steps++; if (s->owner != t->id) return EPERM; if (--s->count > 0) return 0; s->owner = -1; release(t, s); unblock(m, true); if (t->inlib) shared_point(t); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!SIMT) return 0; Task* t = g_cur; Sync* s = sync_of(m); t->steps++; g_res->st.locks++; if (t->inlib) shared_point(t); while (s->owner >= 0 || s->readers > 0) { if (s->owner == t->id) violation(V_DEADLOCK, "a caller locks a rwlock it already holds"); block_on(m); } s->owner = t->id; s->count = 1; acquire(t, s); locked(t); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!SIMT) return 0; Task* t = g_cur; Sync* s = sync_of(m); t->steps++; g_res->st.locks++; if (t->inlib) shared_point(t); while (s->owner >= 0) { if (s->owner == t->id) violation(V_DEADLOCK, "a caller locks a rwlock it already holds"); block_on(m); } s->readers++; acquire(t, s); locked(t); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!SIMT) return 0; Task* t = g_cur; Sync* s = sync_of(m); t->steps++; if (s->owner == t->id) s->owner = -1; else if (s->readers > 0) s->readers--; release(t, s); unblock(m, true); if (t->inlib) shared_point(t); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIMT) return 0; Task* t = g_cur; __wrap_pthread_mutex_unlock(m); block_on(c); acquire(t, sync_of(c)); __wrap_pthread_mutex_lock(m); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (!SIMT) return 0; Task* t = g_cur; __wrap_pthread_mutex_unlock(m); bool lib = t->inlib; t->inlib = false; int l[MAXT]; if (runnable_list(l, t->id) > 0) switch_to(l[0]); t->inlib = lib; (void)c; __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return __wrap_pthread_cond_timedwait(c, m, ts); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!SIMT) return 0; release(g_cur, sync_of(c)); unblock(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!SIMT) return 0; release(g_cur, sync_of(c)); unblock(c, true); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  Task* t = g_cur; volatile int* st = (volatile int*)o;
  if (!SIMT) { if (*st != 2) { *st = 1; try { f(); } catch (...) { *st = 0; throw; } *st = 2; } return 0; }
  t->steps++; if (t->inlib) shared_point(t);
  for (;;) {
    if (*st == 2) { acquire(t, sync_of((void*)o)); return 0; }
    if (*st == 0) { *st = 1; sync_of((void*)o)->owner = t->id; sync_of((void*)o)->once = true; try { f(); } catch (...) { *st = 0; unblock((void*)o, true); throw; } *st = 2; release(t, sync_of((void*)o)); unblock((void*)o, true); return 0; }
    if (sync_of((void*)o)->owner == t->id) violation(V_DEADLOCK, "recursive call_once"); block_on((void*)o);
  }
}
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!SIMT) return __real_pthread_create(th, a, f, arg);
  Task* t = g_cur; if (g_ntasks >= MAXT) return EAGAIN; int id = g_ntasks; start_task(id, f, arg, true); g_ntasks++; g_res->st.threads++;
  Task* n = &g_task[id]; for (int i = 0; i < MAXT; i++) if (i != id) n->vc[i] = t->vc[i]; t->vc[t->id]++; plan_next(n); *th = n->th; if (t->inlib) shared_point(t); return 0;
}
int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_join(pthread_t th, void** r) {
  if (!SIMT) return __real_pthread_join(th, r); for (int i = 0; i < g_ntasks; i++) if (g_task[i].libThread && pthread_equal(g_task[i].th, th)) { while (g_task[i].state != 3) block_on(&g_task[i]); acquire(g_cur, sync_of(&g_task[i])); if (r) *r = g_task[i].ret; return 0; } return ESRCH;
}
int __wrap_pthread_detach(pthread_t) { return 0; }

// ==================================================================== clocks, entropy, environment
static u64 sim_now() { g_res->st.clockReads++; switch (g_env.clock) { case 0: break; case 1: g_clock += 1000 + g_erng.below(100000); break; case 2: g_clock -= g_erng.below(2000000000u); break; case 3: g_clock += (u64)g_erng.below(4000000) * 1000000000ull; break; } return g_clock; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!SIMT || !g_cur->inlib) return __real_clock_gettime(c, ts); u64 n = sim_now(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t* p) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
clock_t __wrap_clock() { if (!SIMT) return 0; return (clock_t)(sim_now() / 1000); }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { if (SIMT) { g_clock += t->tv_sec * 1000000000ull + t->tv_nsec; rt_yield(9); } return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return __wrap_nanosleep(t, r); }
int __wrap_usleep(unsigned u) { if (SIMT) { g_clock += u * 1000ull; rt_yield(9); } return 0; }
int __wrap_sched_yield() { rt_yield(9); return 0; }
static u32 draw() {
  g_res->st.entropyDraws++; if (g_cur) g_cur->draws++; u32 v = (u32)((g_cur ? g_cur->erng : g_erng).next() >> 20);
  // a stuck device comes back to life eventually: liveness is only promised once faults stop
  if (g_cur && g_cur->draws > 48) return v;
  switch (g_env.entropy) { case 1: return 0; case 2: return 0xFFFFFFFFu; case 3: return 0x80000000u; case 4: return v & 1 ? 0 : 0xFFFFFFFFu; case 5: return 0x7FFFFFFFu; case 6: return 1; default: return v; }
}
int __wrap_rand() { if (!SIMT || !g_cur->inlib) return 4; return (int)(draw() & 0x7FFFFFFF); }
void __wrap_srand(unsigned) {}
long __wrap_random() { return __wrap_rand(); }
void __wrap_srandom(unsigned) {}
int __wrap_rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (int)(*s >> 1); }
double __wrap_drand48() { return (double)draw() / 4294967296.0; }
long __wrap_lrand48() { return draw() & 0x7FFFFFFF; }
int __wrap_getentropy(void* b, size_t n) { if (g_env.entropyFail) { errno = EIO; return -1; } for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)draw(); return 0; }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { return __wrap_getentropy(b, n) ? -1 : (ssize_t)n; }
char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) { if (!SIMT || !g_cur->inlib) return __real_getenv(n); g_res->st.envvars++; static char one[] = "1", bad[] = "/nonexistent"; return g_env.envvars == 0 ? nullptr : g_env.envvars == 1 ? one : bad; }
// std::random_device
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) { if (g_env.entropyFail) { g_res->st.entropyFails++; if (g_cur) g_cur->draws++; throw std::runtime_error("random_device: entropy source unavailable (injected)"); } }
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { if (g_env.entropyFail == 2) { g_res->st.entropyFails++; if (g_cur) g_cur->draws++; throw std::runtime_error("random_device: read failed (injected)"); } return draw(); }
}
namespace sim { int real_pthread_create(pthread_t* t, pthread_attr_t* a, void* (*f)(void*), void* x) { return __real_pthread_create(t, a, f, x); } }
