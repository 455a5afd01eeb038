#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

// ======================================================================
// memory: two arenas with deterministic addresses
// ======================================================================
__thread int tl_insim = 0;

namespace {
struct Hdr { u32 magic; u32 cls; u64 size; };
const u32 MAGIC_LIVE = 0x51a11c8d, MAGIC_FREE = 0xdeadf4ee, MAGIC_ALIGN = 0xa1169ed0;
struct Arena {
	u64 base, end, bump;
	u64 used;
	Hdr *freelist[512];
};
const u64 PRIV_BASE = 0x100000000000ULL, PRIV_SIZE = 16ULL << 30;
const u64 SHARED_BASE = 0x200000000000ULL, SHARED_SIZE = 8ULL << 30;
const u64 STACK_BASE = 0x300000000000ULL, STACK_SIZE = 2 << 20;
Arena *privA, *sharedA;
u64 next_stack = STACK_BASE;

inline u32 size_class(u64 n, u64 &sz) {
	if (n <= 1024) { u32 c = (n + 15) / 16; if (!c) c = 1; sz = c * 16; return c; }
	int lg = 63 - __builtin_clzll(n - 1);     // n in (2^lg, 2^(lg+1)]
	u64 base = 1ULL << lg, step = base / 4;
	u32 sub = (n - base + step - 1) / step;   // 1..4
	sz = base + sub * step;
	return 64 + (lg - 10) * 4 + sub;
}
}

extern "C" long simraw_syscall(long n, ...);

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
extern "C" [[noreturn]] void raw_exit(int code) { raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }
extern "C" long raw_write(int fd, const void *p, size_t n) { return raw6(SYS_write, fd, reinterpret_cast<long>(p), n, 0, 0, 0); }
extern "C" long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) { return raw6(n, a, b, c, d, e, f); }

static void raw_msg(const char *s) { raw_write(2, s, strlen(s)); }

void arena_init() {
	if (privA) return;
	raw6(SYS_mmap, PRIV_BASE, PRIV_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	raw6(SYS_mmap, SHARED_BASE, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	privA = reinterpret_cast<Arena *>(PRIV_BASE);
	privA->base = PRIV_BASE; privA->end = PRIV_BASE + PRIV_SIZE; privA->bump = PRIV_BASE + 8192;
	sharedA = reinterpret_cast<Arena *>(SHARED_BASE);
	sharedA->base = SHARED_BASE; sharedA->end = SHARED_BASE + SHARED_SIZE; sharedA->bump = SHARED_BASE + 8192;
}
size_t arena_private_used() { return privA ? privA->used : 0; }

static void *arena_alloc(Arena *A, size_t n) {
	u64 sz; u32 c = size_class(n, sz);
	Hdr *h = A->freelist[c];
	if (h) {
		A->freelist[c] = *reinterpret_cast<Hdr **>(h + 1);
	} else {
		if (A->bump + sz + sizeof(Hdr) > A->end) { errno = ENOMEM; return nullptr; }
		h = reinterpret_cast<Hdr *>(A->bump);
		A->bump += sz + sizeof(Hdr);
		h->cls = c; h->size = sz;
	}
	h->magic = MAGIC_LIVE;
	A->used += sz;
	return h + 1;
}

extern "C" {
void *malloc(size_t n) {
	if (!privA) arena_init();
	return arena_alloc(tl_insim ? sharedA : privA, n);
}
void free(void *p) {
	if (!p) return;
	Hdr *h = reinterpret_cast<Hdr *>(p) - 1;
	if (h->magic == MAGIC_ALIGN) { p = reinterpret_cast<void *>(h->size); h = reinterpret_cast<Hdr *>(p) - 1; }
	if (h->magic != MAGIC_LIVE) {
		raw_msg(h->magic == MAGIC_FREE ? "SIM: double free\n" : "SIM: bad free\n");
		raise(SIGABRT);
	}
	Arena *A = reinterpret_cast<u64>(p) >= SHARED_BASE ? sharedA : privA;
	h->magic = MAGIC_FREE;
	A->used -= h->size;
	if (A == privA) memset(p, 0xdb, h->size < 512 ? h->size : 512);
	*reinterpret_cast<Hdr **>(p) = A->freelist[h->cls];
	A->freelist[h->cls] = h;
}
void *calloc(size_t a, size_t b) {
	size_t n = a * b;
	if (a && n / a != b) return nullptr;
	void *p = malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n);
	if (!n) { free(p); return nullptr; }
	Hdr *h = reinterpret_cast<Hdr *>(p) - 1;
	if (h->magic == MAGIC_LIVE && h->size >= n) return p;
	u64 old = h->magic == MAGIC_LIVE ? h->size : n;
	void *q = malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, old < n ? old : n);
	free(p);
	return q;
}
void *memalign(size_t al, size_t n) {
	if (al <= 16) return malloc(n);
	char *p = static_cast<char *>(malloc(n + al + 16));
	if (!p) return nullptr;
	u64 q = (reinterpret_cast<u64>(p) + 16 + al - 1) & ~(al - 1);
	if (q == reinterpret_cast<u64>(p)) return p;
	Hdr *h = reinterpret_cast<Hdr *>(q) - 1;
	h->magic = MAGIC_ALIGN; h->cls = 0; h->size = reinterpret_cast<u64>(p);
	return reinterpret_cast<void *>(q);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **pp, size_t al, size_t n) { *pp = memalign(al, n); return *pp ? 0 : ENOMEM; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095UL); }
size_t malloc_usable_size(void *p) {
	if (!p) return 0;
	Hdr *h = reinterpret_cast<Hdr *>(p) - 1;
	return h->magic == MAGIC_LIVE ? h->size : 0;
}
}

// ======================================================================
// scheduler
// ======================================================================
CoreState *C;
bool g_active = false;
Thr *g_cur;
std::vector<Thr *> *g_threads;
u8 *g_cov;
int g_log_events = 0;
static u64 no_event() { return ~0ULL; }
u64 (*world_next_event)() = no_event;
void (*world_run_events)() = [] {};
void (*world_deadlock)(const char *) = [](const char *) {};
void (*world_switch_hook)(Thr *, Thr *) = nullptr;

static i64 bb_budget = 1LL << 60;
static u64 bb_local = 0;       // basic blocks since last clock update
static u64 wait_seq = 0;

typedef int (*real_create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static real_create_t real_create;

static void fwait(int *f) {
	while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
		raw6(SYS_futex, reinterpret_cast<long>(f), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fwake(int *f) {
	__atomic_store_n(f, 1, __ATOMIC_RELEASE);
	raw6(SYS_futex, reinterpret_cast<long>(f), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

[[noreturn]] void core_die(int code) { raw_exit(code); }

static bool in_window() { return C->steps >= C->cfg.win_lo && C->steps < C->cfg.win_hi; }
static int policy() {
	if (!in_window()) return 2;
	if (C->now >= C->cfg.calm_after) return 0;
	return C->cfg.policy;
}

static void draw_budget() {
	u32 m = C->cfg.bb_mean;
	int p = policy();
	if (!m || p == 2) { bb_budget = 1LL << 60; return; }
	if (p == 1 || p == 3) m *= 8;
	// roughly geometric with a heavy short tail
	u64 r = C->rng.next();
	u64 v = (r & 3) == 0 ? 1 + (r >> 8) % 64 : 1 + (r >> 8) % (2ULL * m);
	bb_budget = v;
}

static void flush_bb() {
	if (!bb_local) return;
	Thr *t = g_cur;
	u64 n = bb_local; bb_local = 0;
	C->bbs += n;
	u64 cost = n * 5;
	if (t) {
		t->spin += n;
		// a thread that computes without any system call gets ever more expensive, so that endless
		// loops reach the simulated deadlines of the oracles
		if (t->spin > 4000000) cost *= (t->spin / 4000000) * (t->spin / 4000000);
		t->cpu_user += cost;
	}
	C->now += cost;
	if (C->bb_cap && C->bbs > C->bb_cap) { C->capped = true; }
}

void core_cost(u64 ns, bool sys) {
	flush_bb();
	C->now += ns;
	if (g_cur) { if (sys) g_cur->cpu_sys += ns; else g_cur->cpu_user += ns; }
}

static void set_prio(Thr *t) { t->prio = (1ULL << 32) + C->rng.below(1ULL << 31); }

static Thr *choose(bool include_cur) {
	// candidates
	static Thr *cand[4096];
	for (;;) {
		int n = 0;
		u64 next_timer = ~0ULL;
		for (Thr *t : *g_threads) {
			if (t->state == T_BLOCK && t->wake <= C->now) {
				t->state = T_RUN; t->timedout = true; t->wobj = nullptr; t->wkind = W_NONE; t->wake = ~0ULL;
			}
			if (t->state == T_RUN) { if (include_cur || t != g_cur) cand[n++] = t; }
			else if (t->state == T_BLOCK && t->wake < next_timer) next_timer = t->wake;
			if (n >= 4000) break;
		}
		if (world_next_event() <= C->now) {
			world_run_events();
			continue;
		}
		if (!n) {
			if (g_cur && g_cur->state == T_RUN) return g_cur;
			u64 ev = world_next_event();
			u64 to = std::min(ev, next_timer);
			if (to == ~0ULL) { world_deadlock("no runnable thread and no timer"); core_die(99); }
			if (to > C->now) C->now = to;
			continue;
		}
		if (C->capped) { world_deadlock("step cap"); core_die(98); }
		int p = policy();
		if (n == 1) return cand[0];
		switch (p) {
		case 2: {
			// run to block: continue current if allowed, else lowest id after the current one (round robin)
			if (include_cur && g_cur->state == T_RUN) return g_cur;
			int cid = g_cur ? g_cur->id : 0;
			Thr *best = nullptr;
			for (int i = 0; i < n; ++i) if (cand[i]->id > cid && (!best || cand[i]->id < best->id)) best = cand[i];
			if (!best) for (int i = 0; i < n; ++i) if (!best || cand[i]->id < best->id) best = cand[i];
			return best;
		}
		case 1: {
			Thr *best = cand[0];
			for (int i = 1; i < n; ++i) if (cand[i]->prio > best->prio) best = cand[i];
			return best;
		}
		case 3: {
			if (C->now > C->starve_until) {
				C->starve_thr = (*g_threads)[C->rng.below(g_threads->size())]->id;
				C->starve_until = C->now + (1 * MS << C->rng.below(18));
			}
			if (n > 1) for (int i = 0; i < n; ++i) if (cand[i]->id == C->starve_thr) { cand[i] = cand[--n]; break; }
			return cand[C->rng.below(n)];
		}
		default:
			return cand[C->rng.below(n)];
		}
	}
}

static void switch_to(Thr *next) {
	Thr *self = g_cur;
	if (next == self) return;
	C->switches++;
	ev_hash(next->id + 1000, C->now);
	if (C->switch_pairs && self) C->switch_pairs->insert(mix64(self->pc * 31 + reinterpret_cast<u64>(self->where)) ^ (mix64(next->pc + 7) + reinterpret_cast<u64>(next->where)));
	if (world_switch_hook) world_switch_hook(self, next);
	g_cur = next;
	draw_budget();
	fwake(&next->futex);
	if (self && self->state != T_DONE) fwait(&self->futex);
}

static void step() {
	C->steps++;
	if (C->step_cap && C->steps > C->step_cap) C->capped = true;
}

// yield point of the running thread
static void yield_impl(bool preempt) {
	SimScope ss;
	flush_bb();
	step();
	Thr *self = g_cur;
	int p = policy();
	Thr *next = self;
	if (world_next_event() <= C->now) world_run_events();
	if (preempt) {
		C->preempts++;
		if (p == 1) {
			// PCT change point: with small probability the running thread drops to lowest priority
			if (C->rng.chance(0.15)) { self->prio = (1ULL << 31) - (++C->lowprio); C->pct_changes++; }
			next = choose(true);
		} else
			next = choose(false);
	} else if (p == 2) {
		next = self;
		if (C->steps % 64 == 0) next = choose(true);
	} else if (p == 1) {
		if (C->rng.chance(0.01)) { self->prio = (1ULL << 31) - (++C->lowprio); C->pct_changes++; }
		next = choose(true);
	} else {
		if (C->rng.chance(C->cfg.p_sync)) next = choose(true);
		else {
			// timers still have to fire
			next = self;
		}
	}
	if (next != self) switch_to(next);
	else draw_budget();
}

void core_yield(const char *where) {
	if (!g_active || !g_cur) return;
	g_cur->where = where;
	yield_impl(false);
}

static void find_deadlock(Thr *t);

void core_block(int kind, const void *obj, u64 wake, const char *where) {
	SimScope ss;
	flush_bb();
	Thr *t = g_cur;
	t->where = where;
	t->spin = 0;
	t->state = T_BLOCK; t->wkind = kind; t->wobj = obj; t->wake = wake; t->timedout = false; t->wseq = ++wait_seq;
	if (kind == W_MUTEX) find_deadlock(t);
	step();
	Thr *next = choose(false);
	if (next == t) { t->state = T_RUN; draw_budget(); return; }
	switch_to(next);
	// running again
}

void core_sleep(u64 ns, int kind) {
	if (!g_active) return;
	core_block(kind, nullptr, C->now + (ns ? ns : 1), "sleep");
}

void core_wake(Thr *t) {
	if (t->state != T_BLOCK) return;
	t->state = T_RUN; t->timedout = false; t->wobj = nullptr; t->wkind = W_NONE; t->wake = ~0ULL;
	int p = policy();
	if (p == 1) { if (!t->prio) set_prio(t); }
}

Thr *core_find(unsigned long pt) {
	for (Thr *t : *g_threads) if (t->pt == pt) return t;
	return nullptr;
}

void dump_threads(FILE *f) {
	static const char *kn[] = { "-", "mutex", "cond", "sleep", "join", "signal", "once", "kernel" };
	for (Thr *t : *g_threads) {
		if (t->state == T_DONE) continue;
		fprintf(f, "  thr %d %-16s state=%d wait=%s obj=%p wake=%lld where=%s\n", t->id, t->name, t->state, kn[t->wkind], t->wobj,
			t->wake == ~0ULL ? -1LL : static_cast<long long>(t->wake / 1000), t->where);
	}
}

static Thr *new_thr() {
	SimScope ss;      // shared arena is fine for these (survives nothing, but deterministic)
	Thr *t = new Thr;
	t->id = g_threads->size();
	g_threads->push_back(t);
	u64 live = 0;
	for (Thr *x : *g_threads) if (x->state != T_DONE) ++live;
	C->max_threads = std::max(C->max_threads, live);
	snprintf(t->name, sizeof t->name, "bees");
	set_prio(t);
	return t;
}

struct Dtor { void (*fn)(void *); void *obj; Dtor *next; };

static void run_dtors(Thr *t) {
	while (t->dtors) {
		Dtor *d = static_cast<Dtor *>(t->dtors);
		t->dtors = d->next;
		d->fn(d->obj);
		// d is leaked on purpose: never freed, allocation stays deterministic
	}
}

static void *trampoline(void *p) {
	Thr *t = static_cast<Thr *>(p);
	fwait(&t->futex);
	tl_insim = 0;
	t->ret = t->fn(t->arg);
	run_dtors(t);
	{
		SimScope ss;
		flush_bb();
		t->state = T_DONE;
		for (Thr *x : *g_threads) if (x->state == T_BLOCK && x->wkind == W_JOIN && x->wobj == t) core_wake(x);
		step();
		Thr *next = choose(false);
		switch_to(next);
	}
	int never = 0;
	for (;;) fwait(&never);
	return nullptr;
}

static Thr *spawn(void *(*fn)(void *), void *arg) {
	Thr *t = new_thr();
	t->fn = fn; t->arg = arg;
	t->state = T_RUN;
	pthread_attr_t at;
	pthread_attr_init(&at);
	u64 st = next_stack; next_stack += STACK_SIZE;
	raw6(SYS_mmap, st, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	pthread_attr_setstack(&at, reinterpret_cast<void *>(st), STACK_SIZE);
	pthread_t pt;
	int rv = real_create(&pt, &at, trampoline, t);
	for (int i = 0; rv == EAGAIN && i < 600; ++i) {   // the real machine is short of threads: wait
		struct timespec ts = { 0, 100000000 };
		raw6(SYS_nanosleep, reinterpret_cast<long>(&ts), 0, 0, 0, 0, 0);
		rv = real_create(&pt, &at, trampoline, t);
	}
	if (rv) { raw_msg("SIM: real pthread_create failed\n"); raw_exit(97); }
	pthread_attr_destroy(&at);
	t->pt = pt;
	return t;
}

static std::function<void()> *g_mainfn;
static void *main_tramp(void *) { (*g_mainfn)(); return nullptr; }

void core_start(std::function<void()> mainfn) {
	real_create = reinterpret_cast<real_create_t>(dlsym(RTLD_NEXT, "pthread_create"));
	if (!real_create) { raw_msg("SIM: no pthread_create\n"); raw_exit(97); }
	{
		SimScope ss;
		g_threads = new std::vector<Thr *>;
		g_mainfn = new std::function<void()>(mainfn);
	}
	C->incarnation_start = C->now;
	g_cur = nullptr;
	Thr *t = spawn(main_tramp, nullptr);
	g_active = true;
	g_cur = t;
	{ SimScope ss; draw_budget(); }
	fwake(&t->futex);
	int never = 0;
	for (;;) fwait(&never);
}

static void *fn_tramp(void *p) { std::function<void()> *f = static_cast<std::function<void()> *>(p); (*f)(); return nullptr; }
int core_spawn(std::function<void()> fn, const char *name) {
	std::function<void()> *f;
	{ SimScope ss; f = new std::function<void()>(fn); }
	Thr *t = spawn(fn_tramp, f);
	snprintf(t->name, sizeof t->name, "%s", name);
	return t->id;
}
void core_join_all() {
	for (size_t i = 0; i < g_threads->size(); ++i) {
		Thr *t = (*g_threads)[i];
		if (t == g_cur || t->detached || strncmp(t->name, "client", 6)) continue;
		while (t->state != T_DONE) core_block(W_JOIN, t, ~0ULL, "join_all");
	}
}

extern "C" {
// basic block hook
void __sanitizer_cov_trace_pc() {
	if (!g_active || tl_insim) return;
	u64 pc = reinterpret_cast<u64>(__builtin_return_address(0));
	static u64 prev = 0;
	g_cov[(pc ^ prev) & 0xffff] = 1;
	prev = (pc >> 1) & 0xffff;
	++bb_local;
	if (--bb_budget > 0) {
		if (bb_local > 200000) {
			// let timers and events of other parties happen even under run-to-block policies
			g_cur->pc = pc; g_cur->where = "bb";
			SimScope ss; flush_bb(); if (world_next_event() <= C->now) world_run_events();
			if (C->now > g_cur->last_bb + 50 * MS) { g_cur->last_bb = C->now; ++C->steps; Thr *n = choose(false); if (n != g_cur) switch_to(n); }
		}
		return;
	}
	g_cur->pc = pc;
	g_cur->where = "bb";
	yield_impl(true);
}

// ---- threads -----------------------------------------------------------
int pthread_create(pthread_t *pt, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	if (!g_active) { raw_msg("SIM: pthread_create outside simulation\n"); raw_exit(97); }
	Thr *t = spawn(fn, arg);
	*pt = t->pt;
	core_yield("pthread_create");
	return 0;
}
int pthread_join(pthread_t pt, void **rv) {
	Thr *t = core_find(pt);
	if (!t) return ESRCH;
	if (t == g_cur) return EDEADLK;
	core_yield("pthread_join");
	while (t->state != T_DONE) core_block(W_JOIN, t, ~0ULL, "pthread_join");
	if (rv) *rv = t->ret;
	return 0;
}
int pthread_detach(pthread_t pt) {
	Thr *t = core_find(pt);
	if (t) t->detached = true;
	core_yield("pthread_detach");
	return 0;
}
int pthread_setname_np(pthread_t pt, const char *name) {
	Thr *t = g_active ? core_find(pt) : nullptr;
	if (strlen(name) > 15) return ERANGE;
	if (t) snprintf(t->name, sizeof t->name, "%s", name);
	return 0;
}
int pthread_getname_np(pthread_t pt, char *buf, size_t n) {
	Thr *t = g_active ? core_find(pt) : nullptr;
	snprintf(buf, n, "%s", t ? t->name : "main");
	return 0;
}
int sched_yield() { core_yield("sched_yield"); return 0; }

// ---- mutexes -----------------------------------------------------------
// owner: __data.__owner = thread id + 1;  recursion: __data.__count
static int tid1() { return g_cur->id + 1; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	memset(m, 0, sizeof *m);
	if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!g_active || !g_cur) return 0;
	if (tl_insim) return 0;
	core_yield("mutex_lock");
	if (m->__data.__owner == tid1()) {
		if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
		SimScope ss;
		world_deadlock("thread locks a mutex it already holds");
		core_die(99);
	}
	while (m->__data.__owner) core_block(W_MUTEX, m, ~0ULL, "mutex_lock");
	m->__data.__owner = tid1(); m->__data.__count = 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!g_active || !g_cur || tl_insim) return 0;
	core_yield("mutex_trylock");
	if (m->__data.__owner == tid1() && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
	if (m->__data.__owner) return EBUSY;
	m->__data.__owner = tid1(); m->__data.__count = 1;
	return 0;
}
static void mutex_release(pthread_mutex_t *m) {
	m->__data.__owner = 0; m->__data.__count = 0;
	for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_MUTEX && t->wobj == m) core_wake(t);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!g_active || !g_cur || tl_insim) return 0;
	if (m->__data.__owner != tid1()) return EPERM;
	if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) { m->__data.__count--; return 0; }
	mutex_release(m);
	core_yield("mutex_unlock");
	return 0;
}

// ---- condition variables -----------------------------------------------
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static void wake_one(Thr *t) { core_wake(t); }
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, u64 wake) {
	core_yield("cond_wait");
	if (wake != ~0ULL && wake <= C->now) {
		// still release and re-acquire the mutex
		mutex_release(m);
		core_yield("cond_wait");
		while (m->__data.__owner) core_block(W_MUTEX, m, ~0ULL, "cond_relock");
		m->__data.__owner = tid1(); m->__data.__count = 1;
		return ETIMEDOUT;
	}
	mutex_release(m);
	if (C->cfg.p_spurious > 0 && in_window() && C->now < C->cfg.calm_after && C->rng.chance(C->cfg.p_spurious)) {
		C->spurious++;
		u64 w = C->now + 1 + C->rng.below(20 * MS);
		bool real_to = wake <= w;
		core_block(W_COND, c, std::min(wake, w), "cond_wait");
		if (g_cur->timedout && !real_to) g_cur->timedout = false;
	} else {
		core_block(W_COND, c, wake, "cond_wait");
	}
	bool to = g_cur->timedout;
	while (m->__data.__owner) core_block(W_MUTEX, m, ~0ULL, "cond_relock");
	m->__data.__owner = tid1(); m->__data.__count = 1;
	return to ? ETIMEDOUT : 0;
}
static const i64 WALL_BASE = 1700000000LL * 1000000000LL;
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_common(c, m, ~0ULL); }
static u64 abs_to_mono(clockid_t clk, const struct timespec *ts) {
	if (ts->tv_sec < 0) return 0;
	if (ts->tv_sec > 1LL << 33) return ~0ULL - 1;
	i64 t = ts->tv_sec * 1000000000LL + ts->tv_nsec;
	if (clk == CLOCK_REALTIME) t -= WALL_BASE + C->wall_offset;
	else t -= 1000 * SEC;
	return t < 0 ? 0 : t;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait_common(c, m, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) { return cond_wait_common(c, m, abs_to_mono(clk, ts)); }
int pthread_cond_signal(pthread_cond_t *c) {
	if (!g_active || !g_cur) return 0;
	core_yield("cond_signal");
	Thr *w[4096]; int n = 0;
	for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_COND && t->wobj == c) w[n++] = t;
	if (n) {
		Thr *pick = w[0];
		if (policy() == 2) { for (int i = 1; i < n; ++i) if (w[i]->wseq < pick->wseq) pick = w[i]; }
		else pick = w[C->rng.below(n)];
		wake_one(pick);
		core_yield("cond_signal");
	}
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!g_active || !g_cur) return 0;
	core_yield("cond_broadcast");
	bool any = false;
	for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_COND && t->wobj == c) { wake_one(t); any = true; }
	if (any) core_yield("cond_broadcast");
	return 0;
}

// ---- once / static guards ----------------------------------------------
int __cxa_guard_acquire(u64 *g) {
	u8 *b = reinterpret_cast<u8 *>(g);
	if (b[0]) return 0;
	if (!g_active || tl_insim) { b[1] = 1; return 1; }
	core_yield("guard");
	while (b[1]) { if (b[0]) return 0; core_block(W_ONCE, g, ~0ULL, "guard"); }
	if (b[0]) return 0;
	b[1] = 1;
	return 1;
}
void __cxa_guard_release(u64 *g) {
	u8 *b = reinterpret_cast<u8 *>(g);
	b[0] = 1; b[1] = 0;
	if (g_active) for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_ONCE && t->wobj == g) core_wake(t);
}
void __cxa_guard_abort(u64 *g) {
	u8 *b = reinterpret_cast<u8 *>(g);
	b[1] = 0;
	if (g_active) for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_ONCE && t->wobj == g) core_wake(t);
}
int pthread_once(pthread_once_t *o, void (*fn)()) {
	if (*o == 2) return 0;
	if (g_active && !tl_insim) while (*o == 1) core_block(W_ONCE, o, ~0ULL, "once");
	if (*o == 2) return 0;
	*o = 1;
	fn();
	*o = 2;
	if (g_active) for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_ONCE && t->wobj == o) core_wake(t);
	return 0;
}
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) {
	if (!g_active || !g_cur) return 0;
	Dtor *d = static_cast<Dtor *>(malloc(sizeof(Dtor)));
	d->fn = fn; d->obj = obj; d->next = static_cast<Dtor *>(g_cur->dtors);
	g_cur->dtors = d;
	return 0;
}

// ---- clocks ------------------------------------------------------------
int clock_gettime(clockid_t clk, struct timespec *ts) {
	u64 t;
	if (!C || !g_active) { ts->tv_sec = 1700000000; ts->tv_nsec = 0; return 0; }
	flush_bb();
	C->now += 30;
	switch (clk) {
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = WALL_BASE + C->now + C->wall_offset; break;
	case CLOCK_THREAD_CPUTIME_ID: t = g_cur ? g_cur->cpu_sys + g_cur->cpu_user : 0; break;
	default: t = C->now + 1000 * SEC; break;
	}
	ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
	return 0;
}
int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
void (*core_on_sleep)(u64, bool) = nullptr;
int nanosleep(const struct timespec *ts, struct timespec *) {
	if (!g_active) return 0;
	u64 ns = ts->tv_sec * SEC + ts->tv_nsec;
	if (core_on_sleep) core_on_sleep(ns, true);
	core_block(W_SLEEP, nullptr, C->now + (ns ? ns : 1), "nanosleep");
	if (core_on_sleep) core_on_sleep(ns, false);
	return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *ts, struct timespec *) {
	if (!g_active) return 0;
	u64 w = (flags & TIMER_ABSTIME) ? abs_to_mono(clk, ts) : C->now + ts->tv_sec * SEC + ts->tv_nsec;
	if (w <= C->now) w = C->now + 1;
	core_block(W_SLEEP, nullptr, w, "nanosleep");
	return 0;
}
int usleep(unsigned us) { struct timespec ts = { static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = { static_cast<time_t>(s), 0 }; nanosleep(&ts, nullptr); return 0; }
}

static void find_deadlock(Thr *t) {
	Thr *x = t;
	for (int hops = 0; hops < 200; ++hops) {
		if (x->state != T_BLOCK || x->wkind != W_MUTEX) return;
		const pthread_mutex_t *m = static_cast<const pthread_mutex_t *>(x->wobj);
		int o = m->__data.__owner;
		if (!o || static_cast<size_t>(o) > g_threads->size()) return;
		x = (*g_threads)[o - 1];
		if (x->state == T_DONE) { world_deadlock("waiting for a mutex whose owner thread has ended"); core_die(99); }
		if (x == t) { world_deadlock("cycle of threads waiting for each other's mutexes"); core_die(99); }
	}
}

// random_device and hardware_concurrency
extern u64 world_entropy();
extern unsigned world_ncpu();
__attribute__((weak)) u64 world_entropy() { return C->rng.next(); }
__attribute__((weak)) unsigned world_ncpu() { return 4; }
extern "C" {
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return static_cast<unsigned>(world_entropy()); }
void _ZNSt13random_device7_M_finiEv(void *) {}
unsigned _ZNSt6thread20hardware_concurrencyEv() { return world_ncpu(); }
}
