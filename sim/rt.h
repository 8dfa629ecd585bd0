// Deterministic simulation runtime: one process, one running thread at a time,
// every allocation, preemption, lock, entropy draw and clock read decided by the plan.
#pragma once
#include <cstdint>
#include <cstddef>
#include <pthread.h>

namespace sim {

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

struct Rng {                       // splitmix64 / xorshift: tiny, seedable, portable
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 below(u32 n) { return n ? (u32)((next() >> 16) % n) : 0; }
  int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

constexpr int MAXT = 8;            // simulated threads (harness tasks + threads the library starts)
constexpr int MAXSW = 4096;        // recorded / explicit switches
constexpr int MAXSTEP = 48;        // op steps per task
constexpr int MAXFOOT = 160;       // words of static memory remembered per reference execution
constexpr int MAXSITE = 192;        // allocation sites remembered per reference execution
constexpr int ITEMS = 40;          // per-item hashes kept for localisation

enum VKind { V_NONE = 0, V_MISMATCH, V_RACE, V_INPUT_WRITE, V_CRASH, V_WILD, V_DEADLOCK, V_STEPS, V_LEAK, V_BADVALUE, V_TERMINATE, V_BLOCKED, V_BADFREE, V_FPENV, V_NONDET, V_TIMEOUT };
const char* vkind_name(int k);

enum Target { TG_HEAP = 0, TG_INPUT = 1, TG_HARNESS = 2 };

// ---- what one simulated op produced -------------------------------------------------
struct OpOut {
  u64 hash; u32 items; u32 status;         // status: 0 ok, 1 threw, 2 bad_alloc surfaced
  u64 steps, allocs; u32 draws, fired, locks;
  char what[96];
  u64 item[ITEMS];
};

struct FaultPlan {                          // allocation faults inside the library
  int kind = 0;                             // 0 none, 1 fail n-th, 2 fail from n-th on, 3 probability, 4 size >= n, 5 n-th and n2-th, 6 n-th even inside third-party code
  u64 n = 0, n2 = 0; double p = 0; u64 seed = 0;
};

struct EnvPlan {
  int fill = 1;                             // heap fill on allocation: 0 zero,1 0xA5,2 0xFF,3 random,4 large doubles,5 small ints, 6 leave (recycled content)
  int freefill = 1;                         // on free: 0 leave, 1 0xDD, 2 random
  int reuse = 0;                            // 0 LIFO, 1 FIFO, 2 never
  int stackfill = 0;                        // 0 none, else pattern
  u64 layout = 0;                           // arena shift
  u64 seed = 1;
  int clock = 0;                            // 0 frozen,1 ticking,2 jumping backwards,3 huge jumps
  int entropy = 0;                          // 0 seeded, 1.. special patterns
  int entropyFail = 0;                      // entropy device refuses to open
  int pid = 1234; int envvars = 0;
};

enum Policy { P_SERIAL = 0, P_RANDOM = 1, P_PCT = 2, P_STALL = 3, P_EXPLICIT = 4, P_BURST = 5 };
struct Switch { int from; u64 step; int to; };
struct SchedPlan {
  int policy = P_SERIAL; u64 seed = 1; double pShared = 0.3; u64 mean = 400; int depth = 3; u64 horizon = 100000;
  int stallTask = -1; u64 stallAt = 0; u64 stallLock = 0; // suspend a caller at a step, or right after it took its n-th lock
  int nsw = 0; Switch* sw = nullptr;        // explicit
};

struct Checks { bool race = false, wild = false, inputWrite = true; u64 stepLimit = 40000000; };

struct Stats {                              // in shared memory, survives the child
  u64 steps, switches, sharedAccess, globalAccess, allocs, fired[8], locks, atomics, guards, clockReads, entropyDraws, entropyFails, threads, frees, tornCopies, stalls, ops, envvars, foreignSkipped;
  u64 schedHash;
};

struct Result {
  volatile int state;                       // 0 not started, 1 running, 2 finished
  int vkind; int vtask, vstep; char detail[900];
  u64 traceHash; u64 vaddr; u64 vpc[2];
  u32 nfoot; u64 foot[MAXFOOT];                // static and thread-local words the library touched (reference executions): key << 1 | wrote
  u32 nsite; struct Site { u64 h; u32 first, last; } site[MAXSITE];  // call stacks that allocate: first and last index of theirs
  int nsw; Switch sw[MAXSW]; int swOverflow;
  OpOut out[MAXT][MAXSTEP];
  Stats st;
};

struct Task {
  int id = -1; volatile int go = 0, ready = 0; int state = 0; // 0 unused 1 runnable 2 blocked 3 done 4 stalled
  bool inlib = false; int nolib = 0; bool unwSaved[4] = {0}; int unwDepth = 0; int target = TG_HEAP;
  u64 steps = 0; long countdown = 1l << 60; u64 nextSlow = ~0ull;
  u64 stackLo = 0, stackLen = 0, tlsLo = ~0ull, tlsHi = 0;
  u32 vc[MAXT] = {0};
  // faults
  bool armed = false; FaultPlan fp; Rng frng; u64 allocIdx = 0; u32 fired = 0;
  // accounting
  u64 allocs = 0; u32 locks = 0; long liveBlocks = 0, liveBytes = 0;
  void* waitOn = nullptr; u64 waitGen = 0; int pctPrio = 0;
  void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; pthread_t th{}; bool joinable = true, libThread = false;
  int curStep = -1;
  u64 opBaseSteps = 0, opStepLimit = 0; Rng erng; u32 draws = 0; // per-op entropy stream
};

extern Task* g_cur; extern Task g_task[MAXT]; extern Result* g_res; extern Checks g_chk; extern EnvPlan g_env; extern SchedPlan g_sched;

void rt_init();                             // once, in the zygote
void rt_child_begin(Result* r, const EnvPlan& e, const SchedPlan& s, const Checks& c, int ntasks);
void rt_run_tasks(int ntasks, void* (*body)(void*)); // starts ntasks simulated threads, returns when all have finished
[[noreturn]] void violation(int kind, const char* fmt, ...);
void rt_yield(int weight);                  // explicit scheduling point in harness code
void rt_trace(u64 v);
u64 arena_mark(int task); void arena_input_reset(int task); u64 input_hash(int task);
void rt_fill_stack(int pattern);
bool rt_readable(const void* p, size_t n);      // live memory a caller may read now
bool rt_is_static_block(void* p);
u64 rt_live_blocks(); u64 rt_live_bytes();  // heap arenas of all tasks
void rt_input_target(bool on);              // the current task allocates in its input arena
u64 input_mark(int t); u64 input_hash(int t, u64 upto);
void rt_shared_inputs(bool on);             // route harness allocations to the shared input arena
u64 shared_hash();
void rt_describe_live(char* buf, size_t n, u64 sinceSerial);
u64 rt_serial();
void rt_seal_live_report(u64 s);
extern bool g_measureOnly; extern bool g_footOn; extern u8* g_cov; constexpr u32 COV = 1u << 16; // code reached by a reference execution
}
