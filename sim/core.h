// Deterministic simulator core: memory arenas, threads, scheduler, clock.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---- memory -------------------------------------------------------------
extern __thread int tl_insim;           // >0: simulator code is running
struct SimScope { SimScope() { ++tl_insim; } ~SimScope() { --tl_insim; } };
struct BeesScope { int s; BeesScope() : s(tl_insim) { tl_insim = 0; } ~BeesScope() { tl_insim = s; } };
void arena_init();
size_t arena_private_used();

// ---- rng ----------------------------------------------------------------
struct Rng {
	u64 s = 1;
	void seed(u64 x) { s = x * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL; next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(double p) { return p > 0 && unit() < p; }
};
static inline u64 mix64(u64 z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

const u64 US = 1000, MS = 1000000, SEC = 1000000000ULL, MINUTE = 60 * SEC, HOUR = 3600 * SEC;

// ---- scheduler configuration (part of the plan) -------------------------
struct SchedCfg {
	u64 seed = 1;
	int policy = 0;            // 0 random, 1 pct, 2 run-to-block, 3 starve
	double p_sync = 0.2;       // chance of switching at a synchronisation point
	u32 bb_mean = 2000;        // mean basic blocks between forced preemptions (0 = never)
	int pct_depth = 3;
	u64 win_lo = 0, win_hi = ~0ULL;   // scheduler steps in which choices are random
	double p_spurious = 0;     // spurious condvar wakeups
	u64 calm_after = ~0ULL;    // simulated time after which policy 0 is used
};

enum { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum { W_NONE, W_MUTEX, W_COND, W_SLEEP, W_JOIN, W_SIGNAL, W_ONCE, W_KERNEL };

struct Thr {
	int id = 0;
	int futex = 0;
	int state = T_FREE;
	int wkind = 0;
	const void *wobj = nullptr;
	u64 wake = ~0ULL;          // absolute simulated time
	bool timedout = false;
	u64 wseq = 0;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	void *ret = nullptr;
	bool detached = false;
	unsigned long pt = 0;
	char name[20] = {0};
	u64 cpu_sys = 0, cpu_user = 0;
	u64 prio = 0;
	u64 last_bb = 0, spin = 0;
	u64 pc = 0;                // where it was last preempted
	bool in_task = false;
	void *dtors = nullptr;
	const char *where = "";
	int ignore = 0;            // library harness use
};

struct CoreState {             // lives in the shared arena
	SchedCfg cfg;
	Rng rng;                   // scheduling choices
	u64 now = 0;               // monotonic simulated ns, over all incarnations
	u64 incarnation_start = 0;
	i64 wall_offset = 0;       // wall clock = wall_base + now + offset
	u64 steps = 0, switches = 0, bbs = 0, syscalls = 0;
	u64 hash = 1469598103934665603ULL;
	u64 preempts = 0, spurious = 0, max_threads = 0, pct_changes = 0;
	u64 step_cap = 0, bb_cap = 0; bool capped = false;
	std::set<u64> *switch_pairs = nullptr;
	u64 next_change = 0; u64 starve_until = 0; int starve_thr = -1;
	u64 lowprio = 0;
};
extern CoreState *C;
extern bool g_active;          // simulated threads exist and the scheduler is in charge
extern Thr *g_cur;
extern std::vector<Thr *> *g_threads;
extern u8 *g_cov;              // coverage bitmap (shared), 65536 bytes
extern int g_log_events;

static inline void ev_hash(u64 a, u64 b = 0) { C->hash = mix64(C->hash ^ a * 0x9E3779B97F4A7C15ULL) + b * 0xff51afd7ed558ccdULL; }

// Provided by the world: next event time, run due events
extern u64 (*world_next_event)();
extern void (*world_run_events)();
extern void (*world_deadlock)(const char *why);
extern void (*world_switch_hook)(Thr *from, Thr *to);

void core_start(std::function<void()> mainfn);     // run mainfn as simulated thread 0; never returns
void core_yield(const char *where);                // synchronisation point of the running thread
void core_sleep(u64 ns, int kind = W_KERNEL);      // block the running thread for ns
void core_block(int kind, const void *obj, u64 wake, const char *where); // block the running thread
void core_wake(Thr *t);
void core_cost(u64 ns, bool sys);                  // advance the clock
int core_spawn(std::function<void()> fn, const char *name);  // simulated thread (library harnesses)
void core_join_all();
unsigned long core_real_create(void *(*fn)(void *), void *arg);
[[noreturn]] void core_die(int code);
Thr *core_find(unsigned long pt);
void dump_threads(FILE *f);
extern "C" void (*core_on_sleep)(u64 ns, bool before);
