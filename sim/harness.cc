// Library level programs: the real classes of /repo/lib and /repo/include used by simulated client threads.
// This file is compiled like the code under test (it can be preempted anywhere); bookkeeping runs under
// SimScope and is therefore atomic.
#include "crucible/cache.h"
#include "crucible/lockset.h"
#include "crucible/multilock.h"
#include "crucible/namedptr.h"
#include "crucible/pool.h"
#include "crucible/progress.h"
#include "crucible/task.h"
#include "crucible/time.h"
#include <algorithm>
#include <chrono>
#include <sstream>
#include <stdexcept>
#include <thread>
#include "world.h"

using crucible::Task; using crucible::TaskMaster; using crucible::Barrier; using crucible::Exclusion; using crucible::ExclusionLock;
using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr;

static u64 seq;                       // logical time: every recorded event gets its own
static const char *PROP = "NONE";
#define ATOMIC SimScope ss_
#define STAT(x) do { ATOMIC; W->stats[x]++; } while (0)
u64 tick() { ATOMIC; return ++seq; }
static u64 simnow() { ATOMIC; return C->now; }
static void nap(u64 us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
static u64 num(const HOp &h, size_t k, u64 d = 0) { return k < h.w.size() ? strtoull(h.w[k].c_str(), nullptr, 0) : d; }
static const string &verb(const HOp &h) { return h.w[0]; }

// the steps of one party
static vector<HOp> steps(const string &who) { vector<HOp> v; { ATOMIC; for (auto &h : W->hops) if (h.who == who) v.push_back(h); } return v; }
static u64 n_clients() { u64 n = 0; for (auto &h : W->hops) if (isdigit(h.who[0])) n = std::max<u64>(n, atoi(h.who.c_str()) + 1); return n; }

static void run_clients(std::function<void(u64)> fn) {
	u64 n; { ATOMIC; n = n_clients(); }
	vector<std::thread> v;
	for (u64 c = 0; c < n; ++c) v.push_back(std::thread([c, &fn]() { fn(c); }));
	for (auto &t : v) t.join();
}
// true if it became true within the time
static bool eventually(double seconds, std::function<bool()> fn) {
	u64 end = simnow() + u64(seconds * 1e9);
	for (;;) {
		if (fn()) return true;
		if (simnow() > end) return false;
		nap(50000);
	}
}

// ====================================================================== tasks
namespace {
struct TInfo {
	bool exists = false;
	u64 last_req = 0, nreq = 0, nstart = 0, nend = 0, cur_start = 0, last_ok = 0, last_end = 0;
	bool running = false;
	u64 first_req_begin = 0, first_req_end = 0, first_start = 0; int first_kind = 0;   // 1 run, 2 idle, 3 other
	vector<HOp> body;
	// locks
	u64 wait_hold = 0; bool turned_away = false; u64 turned_at = 0, done_locks = 0; set<u64> locks_done;
	u64 id = 0;
	bool dropped = false;
	u64 lo = 0, last_ret = 0; int inflight = 0; bool direct = true;   // see Running
};
thread_local u64 thread_lo;          // end of the last execution by this worker
struct Rule { bool insert; int holder; vector<int> kids; u64 base; };
struct LockInfo { u64 holder = 0; u64 hold_id = 0; };
struct BarInfo { u64 left = 0; u64 last_release_begin = 0; u64 released = 0; vector<int> tasks; bool all_begun = false; };
const int MAXT = 64;
TInfo T[MAXT];
Task *handles;
Exclusion *excl;
LockInfo L[16];
BarInfo B[16];
vector<vector<Barrier>> *bars;
u64 hold_ids; set<u64> *held;
int executing, limit_now = 1 << 30, n_threads_now = 4, max_threads_seen = 4;
bool pause_on; u64 starts_in_pause; int pause_allow;
u64 prev_end_seq;                     // end of the previous execution (single worker)
vector<Rule> *rules;
map<string, int> *mtypes;
bool fifo;
}

static Task handle(int i) { ATOMIC; return handles[i]; }

static void task_request(int i, int kind, std::function<void(const Task &)> f) {
	Task t = handle(i);
	if (!t) return;
	u64 b;
	{ ATOMIC; TInfo &x = T[i]; b = x.last_req = ++seq; x.nreq++; x.inflight++; if (kind == 3) x.direct = false; if (!x.first_req_begin) { x.first_req_begin = b; x.first_kind = kind; W->stats["task_requests_first"]++; } W->stats["task_requests"]++; }
	f(t);
	{ ATOMIC; TInfo &x = T[i]; x.last_ret = ++seq; x.inflight--; if (x.first_req_begin == b) x.first_req_end = seq; }
}
static void drop(int i) {
	Task t;
	{ ATOMIC; std::swap(t, handles[i]); T[i].dropped = true; }
}

struct Running {
	int i;
	Running(int n) : i(n) {
		ATOMIC;
		TInfo &x = T[i];
		u64 s = ++seq;
		if (x.running) violate("T01", "concurrent", "task %d started while another execution of it had not ended", i);
		x.running = true; x.cur_start = s; x.nstart++;
		if (x.nstart > x.nreq) violate("T01", "extra", "task %d was executed %llu times for %llu requests", i, (unsigned long long)x.nstart, (unsigned long long)x.nreq);
		// the previous execution took all requests which were made before this worker could have looked at the task
		if (x.nstart > 1 && !x.inflight && x.last_ret < x.lo) violate("T01", "extra", "task %d was executed again although all requests were made before its previous execution", i);
		x.lo = thread_lo;
		++executing;
		W->stats["task_executions"]++;
		if (executing > limit_now) violate("T01", "threads", "%d tasks execute at once, the pool was set to %d threads", executing, limit_now);
		if (pause_on && ++starts_in_pause > u64(pause_allow)) violate("T01", "pause", "%llu tasks were started after the pool of %d threads was paused", (unsigned long long)starts_in_pause, pause_allow);
		if (!x.first_start) {
			x.first_start = s;
			if (fifo) for (int j = 0; j < MAXT; ++j) {
				TInfo &y = T[j];
				if (j == i || !y.first_req_end || y.first_start) continue;
				// y waits, and its first request had returned ...
				if (y.first_kind == 1 && x.first_kind == 1 && y.first_req_end < x.first_req_begin) violate("T01", "fifo", "task %d was started before task %d, which was queued earlier", i, j);
				if (y.first_kind == 1 && x.first_kind == 2 && y.first_req_end < std::max(prev_end_seq, x.first_req_begin)) violate("T01", "idle-first", "idle task %d was started although task %d was queued", i, j);
				if (y.first_kind == 2 && x.first_kind == 2 && y.first_req_end < x.first_req_begin) violate("T01", "fifo", "idle task %d was started before task %d, which was queued earlier", i, j);
			}
		}
		if (rules) for (auto &r : *rules) {
			for (size_t k = 0; k < r.kids.size(); ++k) {
				if (r.kids[k] != i) continue;
				if (T[r.holder].running || (T[r.holder].nreq > r.base && T[r.holder].nend <= r.base)) violate("T02", "too-early", "task %d started before task %d, to which it was %s, had ended", i, r.holder, r.insert ? "inserted" : "appended");
				for (size_t m = 0; m < r.kids.size(); ++m) {
					int o = r.kids[m];
					bool before = r.insert ? T[o].id < T[i].id : m < k;
					if (before && !T[o].nend) violate("T02", "order", "task %d started before task %d, which was to run before it (%s)", i, o, r.insert ? "inserted, order of IDs" : "appended, in order");
					if (before) W->stats["order_pairs"]++;
				}
			}
		}
		for (int b = 0; b < 16; ++b) for (int o : B[b].tasks) if (o == i) {
			W->stats["barrier_tasks"]++;
			if (!B[b].all_begun) violate("T02", "barrier-early", "task %d of barrier %d started while %llu references were not released", i, b, (unsigned long long)B[b].left);
			if (x.nstart > 1) violate("T02", "barrier-twice", "task %d of barrier %d was executed twice", i, b);
		}
		if (x.wait_hold) {
			if (held->count(x.wait_hold)) violate("T02", "retry-early", "task %d was run again while the lock it was refused is still held", i);
			x.wait_hold = 0;
		}
		x.turned_away = false;
	}
	~Running() {
		ATOMIC;
		TInfo &x = T[i];
		x.running = false; x.last_ok = x.cur_start; x.nend++; x.last_end = ++seq;
		--executing;
		prev_end_seq = thread_lo = seq;
	}
};

static void mlock(const string &type, u64 us) {
	auto h = crucible::MultiLocker::get_lock(type);
	{ ATOMIC; for (auto &m : *mtypes) if (m.first != type && m.second) violate("T02", "multilock", "locks of type %s and %s are held at the same time", type.c_str(), m.first.c_str()); (*mtypes)[type]++; W->stats["multilocks"]++; }
	nap(us);
	{ ATOMIC; (*mtypes)[type]--; }
}
static void release(u64 b, u64 c) {
	{ ATOMIC; if (B[b].left) { B[b].left--; if (!B[b].left) B[b].all_begun = true; } ++seq; W->stats["barrier_releases"]++; }
	(*bars)[b][c].release();
}
struct task_error : std::runtime_error { task_error() : std::runtime_error("task failed") {} };

static void task_body(int i) {
	Running r(i);
	u64 nth; { ATOMIC; nth = T[i].nstart; }
	for (auto &h : T[i].body) {
		const string &v = verb(h);
		if (v == "sleep") nap(num(h, 1));
		else if (v == "throw") { if (nth <= num(h, 1, 1)) { STAT("task_throws"); throw task_error(); } }
		else if (v == "throwint") { if (nth <= num(h, 1, 1)) { STAT("task_throws"); throw 42; } }
		else if (v == "again") {
			if (nth <= num(h, 1, 1)) {
				Task me = Task::current_task();
				{ ATOMIC; TInfo &x = T[i]; x.last_req = x.last_ret = ++seq; x.nreq++; x.inflight++; W->stats["task_requests"]++; }
				if (num(h, 2)) me.idle(); else me.run();
				ATOMIC; T[i].last_ret = ++seq; T[i].inflight--;
			}
		}
		else if (v == "run") task_request(num(h, 1), 3, [](const Task &t) { t.run(); });
		else if (v == "append") { Task me = Task::current_task(); if (num(h, 1) > u64(i)) task_request(num(h, 1), 3, [&](const Task &t) { me.append(t); }); }
		else if (v == "insert") { Task me = Task::current_task(); if (num(h, 1) > u64(i)) task_request(num(h, 1), 3, [&](const Task &t) { me.insert(t); }); }
		else if (v == "release") { if (nth == 1) release(num(h, 1), num(h, 2)); }
		else if (v == "mlock") mlock(h.w[1], num(h, 2));
		else if (v == "lock") {
			u64 k = num(h, 1);
			bool have;
			{ ATOMIC; have = T[i].locks_done.count(k); }
			if (have) continue;
			u64 other;
			{ ATOMIC; other = L[k].hold_id; }
			ExclusionLock l = excl[k].try_lock(Task::current_task());
			if (!l) {
				ATOMIC;
				W->stats["lock_refused"]++;
				TInfo &x = T[i];
				x.turned_away = true; x.last_req = x.last_ret = ++seq; x.nreq++; x.direct = false;
				if (other && L[k].hold_id == other) x.wait_hold = other;
				return;
			}
			u64 me;
			{
				ATOMIC;
				if (L[k].hold_id) violate("T02", "exclusion", "task %d got lock %llu while task %llu holds it", i, (unsigned long long)k, (unsigned long long)L[k].holder);
				me = L[k].hold_id = ++hold_ids; L[k].holder = i; held->insert(me);
				W->stats["lock_taken"]++;
			}
			nap(num(h, 2));
			{ ATOMIC; if (L[k].hold_id == me) L[k].hold_id = 0; held->erase(me); T[i].locks_done.insert(k); ++seq; }
			if (num(h, 3)) { l.release(); nap(num(h, 3)); }
		}
	}
}

static void pool_threads(int n) {
	{ ATOMIC; ++seq; limit_now = std::max(limit_now, n); max_threads_seen = std::max(max_threads_seen, n); if (pause_on) pause_allow = std::max(pause_allow, n); }
	TaskMaster::set_thread_count(n);
	{ ATOMIC; ++seq; limit_now = n; n_threads_now = n; W->stats["resizes"]++; }
}
static void pool_pause(bool on) {
	if (!on) { ATOMIC; pause_on = false; ++seq; }
	TaskMaster::pause(on);
	if (on) { ATOMIC; pause_on = true; starts_in_pause = 0; pause_allow = n_threads_now; ++seq; W->stats["pauses"]++; }
}

static void task_step(const HOp &h) {
	const string &v = verb(h);
	int a = num(h, 1), b = num(h, 2);
	if (v == "sleep") nap(a);
	else if (v == "run") task_request(a, 1, [](const Task &t) { t.run(); });
	else if (v == "idle") task_request(a, 2, [](const Task &t) { t.idle(); });
	else if (v == "append") { Task t = handle(a); if (t && a < b) task_request(b, 3, [&](const Task &o) { t.append(o); }); }
	else if (v == "insert") { Task t = handle(a); if (t && a < b) task_request(b, 3, [&](const Task &o) { t.insert(o); }); }
	else if (v == "drop") drop(a);
	else if (v == "pause") pool_pause(a);
	else if (v == "threads") pool_threads(a);
	else if (v == "release") release(a, b);
	else if (v == "mlock") mlock(h.w[1], b);
	else if (v == "print") { std::ostringstream o; TaskMaster::print_queue(o); TaskMaster::print_workers(o); TaskMaster::get_queue_count(); }
}

static int tasks_main() {
	u64 n, th;
	{ ATOMIC; n = std::min<u64>(W->cfgu("tasks", 8), MAXT); th = W->cfgu("threads", 2); fifo = W->cfgu("fifo", 0);
	  rules = new vector<Rule>; mtypes = new map<string, int>; held = new set<u64>; }
	handles = new Task[MAXT];
	excl = new Exclusion[16];
	bars = new vector<vector<Barrier>>(16);
	pool_threads(th);
	for (u64 i = 0; i < n; ++i) {
		{ ATOMIC; T[i].exists = true; T[i].body = steps("T" + std::to_string(i)); }
		Task t("task_" + std::to_string(i), [i]() { task_body(i); });
		ATOMIC;
		handles[i] = t;
		T[i].id = t.id();
	}
	for (auto &h : steps("main")) {
		const string &v = verb(h);
		if (v == "chain") {          // chain append|insert holder kids...
			bool ins = h.w[1] == "insert"; int hd = num(h, 2);
			Rule r; r.insert = ins; r.holder = hd; { ATOMIC; r.base = T[hd].nend; }
			for (size_t k = 3; k < h.w.size(); ++k) { int c = num(h, k); r.kids.push_back(c); Task t = handle(hd); task_request(c, 3, [&](const Task &o) { if (ins) t.insert(o); else t.append(o); }); }
			ATOMIC; rules->push_back(r);
		} else if (v == "barrier") { // barrier b copies tasks...
			int b = num(h, 1);
			Barrier bar;
			for (size_t k = 3; k < h.w.size(); ++k) { int c = num(h, k); { ATOMIC; T[c].last_req = ++seq; T[c].nreq++; T[c].inflight++; T[c].direct = false; B[b].tasks.push_back(c); } bar.insert_task(handle(c)); }
			{ ATOMIC; B[b].left = num(h, 2); }
			for (u64 k = 0; k < num(h, 2); ++k) (*bars)[b].push_back(bar);
		} else if (v == "settle") {  // settle tasks...: until they have been executed
			auto ended = [&]() { ATOMIC; for (size_t k = 1; k < h.w.size(); ++k) { TInfo &x = T[num(h, k)]; if (x.running || x.last_ok < x.last_req) return false; } return true; };
			if (!eventually(900, ended)) { ATOMIC; violate(PROP, "lost", "tasks which were requested were not run within 900 s although the pool is free"); }
		} else task_step(h);
	}
	run_clients([](u64 c) { for (auto &h : steps(std::to_string(c))) task_step(h); });
	// nothing holds these back: they must happen by themselves
	bool works; { ATOMIC; works = !pause_on && n_threads_now > 0; }
	int late = -1;
	if (works && !eventually(900, [&]() { ATOMIC; for (int i = 0; i < MAXT; ++i) { TInfo &x = T[i]; if (x.exists && x.direct && (x.running || x.last_ok < x.last_req)) { late = i; return false; } } return true; })) {
		ATOMIC;
		violate(PROP, "lost", "task %d was requested and was not run within 900 s although the pool works", late);
	}
	// everything is let go, the pool works: what was asked for must happen
	pool_pause(false);
	pool_threads(std::max<u64>(1, th));
	for (u64 i = 0; i < n; ++i) drop(i);
	{ ATOMIC; for (auto &b : B) b.all_begun = true; }
	for (auto &b : *bars) b.clear();
	auto all = [&]() { ATOMIC; for (auto &x : T) if (x.exists && (x.running || (x.last_req && x.last_ok < x.last_req))) return false; return true; };
	if (!eventually(900, all)) {
		ATOMIC;
		for (int i = 0; i < MAXT; ++i) if (T[i].exists && T[i].last_req && T[i].last_ok < T[i].last_req) {
			const char *p = T[i].turned_away ? "T02" : "T01";
			if (string(PROP) == "T02") p = "T02";
			violate(p, T[i].turned_away ? "not-retried" : "lost", "task %d was %s and was not run within 900 s", i, T[i].turned_away ? "refused a lock" : "requested to run");
		}
	} else if (!eventually(60, []() { return Task::instance_count() == 0; })) violate(PROP, "leak", "%zu task objects still exist although all work is done and nothing refers to them", Task::instance_count());
	pool_threads(0);
	return 0;
}

// ====================================================================== workers and load
// A pool with more work than workers: how many tasks run at once once the settings and the load
// have been constant for long enough.
namespace {
int l_running, l_peak, l_starts;
bool l_quit;
Task *l_tasks;
}
static void load_body(u64 i) {
	{ ATOMIC; if (l_quit) return; ++l_running; ++l_starts; l_peak = std::max(l_peak, l_running); W->stats["task_executions"]++; }
	nap(1000000 + i * 70001 % 1900000);
	{ ATOMIC; --l_running; }
	Task::current_task().run();
}
static int load_main() {
	u64 n, th, min = 0; double target = 0, load = 0; bool paused = false;
	{ ATOMIC; th = W->cfgu("threads", 2); n = std::min<u64>(40, W->cfgu("tasks", 24)); load = W->loadavg; }
	u64 most = th;
	l_tasks = new Task[n];
	TaskMaster::set_thread_count(th);
	for (u64 i = 0; i < n; ++i) { Task t("load_" + std::to_string(i), [i]() { load_body(i); }); { ATOMIC; l_tasks[i] = t; } t.run(); }
	for (auto &h : steps("0")) {
		const string &v = verb(h);
		if (v == "sleep") nap(num(h, 1));
		else if (v == "threads") { th = num(h, 1); most = std::max(most, th); TaskMaster::set_thread_count(th); }
		else if (v == "min") { min = num(h, 1); TaskMaster::set_thread_min_count(min); }
		else if (v == "target") { target = strtod(h.w[1].c_str(), nullptr); TaskMaster::set_loadavg_target(target); }
		else if (v == "load") { load = strtod(h.w[1].c_str(), nullptr); ATOMIC; W->loadavg = load; }
		else if (v == "pause") { paused = num(h, 1); TaskMaster::pause(paused); }
		else if (v == "print") { std::ostringstream o; TaskMaster::print_queue(o); TaskMaster::print_workers(o); TaskMaster::get_thread_count(); TaskMaster::get_current_load(); }
		else if (v == "settle") {
			// one adjustment every five seconds: shrinking by the whole excess, growing by a third of what is missing
			double d = target - load, wait = 20;
			u64 want = th;
			if (target != 0 && d < 0) { want = std::min(min, th); wait += (most / -d + 3) * 5 * 1.5; }
			else if (target != 0) wait += (th * 3 / d + 3) * 5 * 1.5;
			else wait += 15;
			if (paused) want = 0;
			nap(wait * 1e6);
			{ ATOMIC; l_peak = l_running; l_starts = 0; }
			nap(20000000);
			most = th;
			ATOMIC;
			W->stats[want ? "settled" : "settled_at_zero"]++;
			if (target != 0) W->stats[d < 0 ? "settled_high" : "settled_low"]++;
			u64 got = l_starts || l_running ? l_peak : 0;
			const char *st = paused ? "the pool is paused" : target == 0 ? "no load target is set" : d < 0 ? "the load stays above the target" : "the load stays below the target";
			if (got > want) violate("P19", "too-many", "%llu tasks run at once, not %llu, with at most %llu and at least %llu workers configured, and %s for %.0f s", (unsigned long long)got, (unsigned long long)want, (unsigned long long)th, (unsigned long long)min, st, wait);
			if (got < want) violate("P19", "too-few", "%llu tasks run at once, not %llu, with at most %llu and at least %llu workers configured, and %s for %.0f s", (unsigned long long)got, (unsigned long long)want, (unsigned long long)th, (unsigned long long)min, st, wait);
		}
	}
	{ ATOMIC; l_quit = true; }
	TaskMaster::pause(false);
	TaskMaster::set_loadavg_target(0);
	TaskMaster::set_thread_count(std::max<u64>(1, th));
	eventually(120, []() { ATOMIC; return l_running == 0; });
	TaskMaster::set_thread_count(0);
	return 0;
}

// ====================================================================== caches
namespace {
struct Val { u64 key = 0, start = 0, first_returned = 0; bool thrown = false; };
map<u64, Val> *vals;                  // by version
map<u64, int> *constructing;
map<u64, u64> *n_construct, *n_invalid;
map<u64, u64> *expired_after;         // key -> versions returned before this time are stale
u64 cleared_after, versions;
}
struct make_error : std::runtime_error { make_error() : std::runtime_error("cannot make") {} };
static u64 rnd(u64 n) { ATOMIC; return W->wrng.below(n); }
static bool chance(double p) { ATOMIC; return W->wrng.chance(p); }

static u64 construct(u64 k) {
	{ ATOMIC; if ((*constructing)[k]++) violate("C01", "construct-twice", "two threads construct the value of key %llu at the same time", (unsigned long long)k); (*n_construct)[k]++; W->stats["constructs"]++; }
	u64 start = tick();
	double pf; { ATOMIC; pf = W->cfgd("p_fail", 0); }
	nap(rnd(300));
	{ ATOMIC; (*constructing)[k]--; }
	if (chance(pf)) { { ATOMIC; (*n_construct)[k]--; W->stats["construct_failures"]++; } throw make_error(); }
	ATOMIC;
	u64 v = ++versions;
	Val &x = (*vals)[v]; x.key = k; x.start = start;
	return v;
}

static int lru_main() {
	u64 max, single;
	{ ATOMIC; max = W->cfgu("max", 8); single = n_clients() == 1; }
	bool roomy; { ATOMIC; roomy = W->cfgu("keys", 8) < max; }
	crucible::LRUCache<u64, u64> cache(construct, max);
	bool resized = false; { ATOMIC; for (auto &h : W->hops) if (h.w[0] == "max") resized = true; }
	vector<u64> model;               // least recently used first (one client)
	auto used = [&](u64 k) { model.erase(std::remove(model.begin(), model.end(), k), model.end()); while (model.size() >= max) model.erase(model.begin()); model.push_back(k); };
	run_clients([&](u64 c) {
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			u64 k = num(h, 1);
			if (v == "sleep") nap(k);
			else if (v == "get" || v == "refresh") {
				u64 b = tick(), stale, cl, cons;
				{ ATOMIC; if (v == "refresh") { (*n_invalid)[k]++; } stale = (*expired_after)[k]; cl = cleared_after; cons = (*n_construct)[k]; }
				u64 r = 0; bool ok = false;
				try { r = v == "get" ? cache(k) : cache.refresh(k); ok = true; } catch (const make_error &) { STAT("failures_seen"); }
				ATOMIC;
				++seq;
				if (!ok) { if (single) model.erase(std::remove(model.begin(), model.end(), k), model.end()); continue; }
				W->stats["gets"]++;
				auto it = vals->find(r);
				if (it == vals->end()) { violate("C01", "made-up", "lookup of key %llu returned a value which was never made", (unsigned long long)k); continue; }
				Val &x = it->second;
				if (x.key != k) violate("C01", "wrong-key", "lookup of key %llu returned the value of key %llu", (unsigned long long)k, (unsigned long long)x.key);
				if (!x.first_returned) x.first_returned = seq;
				u64 inv = std::max(stale, cl);
				if (v == "refresh") inv = std::max(inv, b);
				if (x.first_returned < inv) violate("C01", "stale", "lookup of key %llu returned a value which had been removed before the lookup began", (unsigned long long)k);
				if (roomy && !resized && (*n_construct)[k] > 1 + (*n_invalid)[k]) violate("C01", "forgotten", "key %llu was constructed %llu times although it was removed only %llu times and there was room", (unsigned long long)k, (unsigned long long)(*n_construct)[k], (unsigned long long)(*n_invalid)[k]);
				if (single && !resized) {
					bool hit = std::count(model.begin(), model.end(), k) && v == "get";
					if (hit && (*n_construct)[k] != cons) violate("C01", "lru", "key %llu was thrown out although it is one of the %llu most recently used", (unsigned long long)k, (unsigned long long)max);
					used(k);
				}
			}
			else if (v == "insert") {
				// the value is one that the caller already has
				u64 ver; { ATOMIC; ver = ++versions; Val &x = (*vals)[ver]; x.key = k; x.start = ++seq; (*n_invalid)[k]++; }
				cache.insert(ver, k);
				ATOMIC; ++seq; if (single) used(k);
			}
			else if (v == "expire") {
				u64 b; { ATOMIC; b = ++seq; (*n_invalid)[k]++; }
				cache.expire(k);
				ATOMIC; ++seq; W->stats["expires"]++; (*expired_after)[k] = std::max((*expired_after)[k], b); if (single) model.erase(std::remove(model.begin(), model.end(), k), model.end());
			}
			else if (v == "clear") {
				u64 b; { ATOMIC; b = ++seq; for (u64 q = 0; q < 64; ++q) (*n_invalid)[q]++; }
				cache.clear();
				ATOMIC; ++seq; W->stats["clears"]++; cleared_after = std::max(cleared_after, b); if (single) model.clear();
			}
			else if (v == "max") { cache.max_size(k); }
			else if (v == "size") { u64 s = cache.size(); ATOMIC; if (!resized && s > max) violate("C01", "size", "the cache holds %llu values, its limit is %llu", (unsigned long long)s, (unsigned long long)max); W->stats["sizes"]++; }
		}
	});
	if (!resized) { u64 s = cache.size(); if (s > max) violate("C01", "size", "the cache holds %llu values, its limit is %llu", (unsigned long long)s, (unsigned long long)max); }
	return 0;
}

namespace {
struct Obj {
	u64 key, id;
	Obj(u64 k);
	~Obj();
};
struct ObjInfo { u64 key; int users = 0; bool alive = false, preparing = false; int out = 0; u64 checkins = 0, checkouts = 0; };
map<u64, ObjInfo> *objs; u64 obj_ids;
struct Holding { u64 obj; u64 since; };
map<u64, map<u64, Holding>> *holding;   // key -> holding id -> object
u64 holding_ids;
Obj::Obj(u64 k) : key(k) { ATOMIC; id = ++obj_ids; ObjInfo &o = (*objs)[id]; o.key = k; o.alive = true; W->stats["objects"]++; }
Obj::~Obj() { ATOMIC; ObjInfo &o = (*objs)[id]; if (!o.alive) violate("C01", "double-destroy", "object %llu was destroyed twice", (unsigned long long)id); o.alive = false; if (o.users) violate("C01", "destroyed-in-use", "object %llu was destroyed while a client has a pointer to it", (unsigned long long)id); }
}
static int named_main() {
	crucible::NamedPtr<Obj, u64> names([](u64 k) -> shared_ptr<Obj> {
		{ ATOMIC; if ((*constructing)[k]++) violate("C01", "construct-twice", "two threads construct the object of name %llu at the same time", (unsigned long long)k); W->stats["constructs"]++; }
		double pf; { ATOMIC; pf = W->cfgd("p_fail", 0); }
		nap(rnd(300));
		auto rv = std::make_shared<Obj>(k);
		{ ATOMIC; (*constructing)[k]--; }
		if (chance(pf)) { STAT("construct_failures"); if (chance(0.3)) return nullptr; throw make_error(); }
		return rv;
	});
	run_clients([&](u64 c) {
		map<u64, std::pair<shared_ptr<Obj>, u64>> slot;
		auto drop1 = [&](u64 s) {
			auto i = slot.find(s);
			if (i == slot.end()) return;
			{ ATOMIC; ++seq; u64 k = i->second.first->key; (*holding)[k].erase(i->second.second); (*objs)[i->second.first->id].users--; }
			slot.erase(i);
		};
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			u64 k = num(h, 1), s = num(h, 2);
			if (v == "sleep") nap(k);
			else if (v == "get" || v == "put") {
				drop1(s);
				u64 b = tick();
				shared_ptr<Obj> p;
				try { p = v == "get" ? names(k) : names.insert(std::make_shared<Obj>(k), k); } catch (const std::exception &) { STAT("failures_seen"); continue; }
				ATOMIC;
				++seq; W->stats["gets"]++;
				if (!p) { violate("C01", "null", "lookup of name %llu returned nothing", (unsigned long long)k); continue; }
				if (!(*objs)[p->id].alive) violate("C01", "dead", "lookup of name %llu returned a destroyed object", (unsigned long long)k);
				if (p->key != k) violate("C01", "wrong-key", "lookup of name %llu returned the object of name %llu", (unsigned long long)k, (unsigned long long)p->key);
				for (auto &x : (*holding)[k]) if (x.second.since < b && x.second.obj != p->id) violate("C01", "two-objects", "lookup of name %llu returned a new object although another one was in use all the time", (unsigned long long)k);
				u64 id = ++holding_ids;
				(*holding)[k][id] = Holding{ p->id, seq };
				(*objs)[p->id].users++;
				{ BeesScope bs; slot[s] = std::make_pair(p, id); }
			}
			else if (v == "drop") drop1(k);
		}
		while (!slot.empty()) drop1(slot.begin()->first);
	});
	ATOMIC;
	for (auto &o : *objs) if (o.second.alive) violate("C01", "object-leak", "object %llu still exists although nobody has a pointer to it", (unsigned long long)o.first);
	return 0;
}

static int pool_main() {
	typedef crucible::Pool<Obj> P;
	static u64 handed, idle_now, clears;
	std::unique_ptr<P> pool(new P([]() { double pf; { ATOMIC; pf = W->cfgd("p_fail", 0); W->stats["constructs"]++; } nap(rnd(200)); if (chance(pf)) { STAT("construct_failures"); throw make_error(); } return std::make_shared<Obj>(0); },
		[](shared_ptr<Obj> o) { { ATOMIC; ObjInfo &i = (*objs)[o->id]; i.checkins++; if (i.users) violate("C01", "checkin-in-use", "object %llu was put back while it is in use", (unsigned long long)o->id); if (i.checkins > i.checkouts) violate("C01", "checkin-twice", "object %llu was put back twice", (unsigned long long)o->id); i.preparing = true; } nap(rnd(50)); ATOMIC; (*objs)[o->id].preparing = false; },
		[](shared_ptr<Obj> o) { nap(rnd(50)); ATOMIC; (*objs)[o->id].checkouts++; }));
	run_clients([&](u64 c) {
		map<u64, vector<shared_ptr<Obj>>> slot;
		auto drop1 = [&](u64 s) { auto i = slot.find(s); if (i == slot.end() || i->second.empty()) return; { ATOMIC; ++seq; (*objs)[i->second.back()->id].users--; if (i->second.size() == 1) (*objs)[i->second.back()->id].out = 0; } i->second.pop_back(); };
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			u64 s = num(h, 1);
			if (v == "sleep") nap(s);
			else if (v == "get") {
				while (!slot[s].empty()) drop1(s);
				shared_ptr<Obj> p;
				try { p = (*pool)(); } catch (const make_error &) { STAT("failures_seen"); continue; }
				ATOMIC;
				++seq; W->stats["gets"]++; handed++;
				ObjInfo &i = (*objs)[p->id];
				if (!i.alive) violate("C01", "dead", "the pool handed out a destroyed object");
				if (i.preparing) violate("C01", "preparing", "the pool handed out object %llu while the function that prepares it for reuse is at work", (unsigned long long)p->id);
				if (i.out || i.users) violate("C01", "shared", "the pool handed out object %llu, which is in use", (unsigned long long)p->id);
				if (i.checkouts != i.checkins + 1) violate("C01", "checkout", "object %llu was handed out after %llu checkouts and %llu checkins", (unsigned long long)p->id, (unsigned long long)i.checkouts, (unsigned long long)i.checkins);
				i.out = 1; i.users++;
				{ BeesScope bs; slot[s].push_back(p); }
			}
			else if (v == "copy") { if (!slot[s].empty()) { auto q = slot[s].back(); { ATOMIC; (*objs)[q->id].users++; } slot[s].push_back(q); } }
			else if (v == "drop") drop1(s);
			else if (v == "clear") { { ATOMIC; ++clears; W->stats["clears"]++; } pool->clear(); }
		}
		for (auto &x : slot) while (!x.second.empty()) drop1(x.first);
	});
	(void)idle_now;
	pool.reset();
	ATOMIC;
	for (auto &o : *objs) if (o.second.alive) violate("C01", "object-leak", "object %llu still exists although the pool is gone and nobody has a pointer to it", (unsigned long long)o.first);
	return 0;
}

static int lockset_main() {
	crucible::LockSet<u64> ls;
	static map<u64, int> owner; static u64 total, max;
	{ ATOMIC; max = W->cfgu("max", 0); }
	if (max) ls.max_size(max);
	run_clients([&](u64 c) {
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			u64 k = num(h, 1), us = num(h, 2);
			auto in = [&]() { ATOMIC; ++seq; if (owner[k]++) violate("C01", "lock", "two threads hold the lock of key %llu", (unsigned long long)k); if (max && ++total > max) violate("C01", "lock-limit", "%llu locks are held, the limit is %llu", (unsigned long long)total, (unsigned long long)max); W->stats["gets"]++; };
			auto out = [&]() { ATOMIC; ++seq; owner[k]--; if (max) --total; };
			if (v == "sleep") nap(k);
			else if (v == "lock") { auto l = ls.make_lock(k); in(); nap(us); out(); }
			else if (v == "manual") { auto l = ls.make_lock(k, false); l.lock(); in(); nap(us); out(); l.unlock(); }
			else if (v == "try") { auto l = ls.make_lock(k, false); if (l.try_lock()) { in(); nap(us); out(); } else STAT("try_failed"); }
			else if (v == "size") { ls.size(); ls.copy(); }
		}
	});
	if (!ls.empty()) violate("C01", "lock-left", "locks are left although nobody holds one");
	return 0;
}

// ====================================================================== progress
namespace {
// a position of several words which is not copied in one go
struct Pos {
	u64 w[3];
	void set(const Pos &o) {
		for (volatile int i = 0; i < 3; i = i + 1) { w[i] = o.w[i]; if (slow && rnd(8) == 0) nap(rnd(100)); }
	}
	Pos(u64 v = 0) { w[0] = w[1] = w[2] = v; }
	Pos(const Pos &o) { set(o); }
	Pos &operator=(const Pos &o) { set(o); return *this; }
	bool operator<(const Pos &o) const { return w[0] < o.w[0]; }
	static bool slow;
};
bool Pos::slow;
std::ostream &operator<<(std::ostream &os, const Pos &p) { return os << p.w[0]; }
}
static u64 whole(const Pos &p) {
	if (p.w[0] != p.w[1] || p.w[1] != p.w[2]) { ATOMIC; violate("G01", "torn", "the position read is a mixture of %llu, %llu and %llu", (unsigned long long)p.w[0], (unsigned long long)p.w[1], (unsigned long long)p.w[2]); }
	return p.w[0];
}
static int progress_main() {
	u64 v0; { ATOMIC; Pos::slow = W->cfgu("slow_copy", 0); v0 = W->cfgu("v0", 100); }
	typedef crucible::ProgressTracker<Pos> PT;
	std::unique_ptr<PT> pt(new PT(v0));
	struct H { u64 v, hb, he, db, de; };     // hold begin/end, drop begin/end
	static map<u64, H> hs; static u64 ids, end_seen, highest_done;
	highest_done = v0;
	static vector<std::pair<u64, u64>> ends;  // (seq at return, value)
	auto check = [&](bool end, u64 b, u64 r) {
		// under ATOMIC, call from b to seq
		u64 e = ++seq;
		W->stats["looks"]++;
		u64 minlive = ~0ULL, minmaybe = ~0ULL, maxheld = v0, maxmaybe = v0; bool definite = false, any = false;
		for (auto &x : hs) {
			H &h = x.second;
			bool begun = h.hb < e, sure = h.he && h.he < b;
			if (sure) maxheld = std::max(maxheld, h.v);
			if (begun) maxmaybe = std::max(maxmaybe, h.v);
			bool live = sure && (!h.db || h.db > e);
			bool maybe = begun && (!h.de || h.de > b);
			if (live) { minlive = std::min(minlive, h.v); definite = true; }
			if (maybe) { minmaybe = std::min(minmaybe, h.v); any = true; }
		}
		if (end) {
			if (r < maxheld) violate("G01", "end-low", "end is %llu although %llu had been held", (unsigned long long)r, (unsigned long long)maxheld);
			if (r > maxmaybe) violate("G01", "end-high", "end is %llu although nothing above %llu was ever held", (unsigned long long)r, (unsigned long long)maxmaybe);
		} else {
			if (definite && r > minlive) violate("G01", "begin-passed", "begin is %llu although item %llu is unfinished", (unsigned long long)r, (unsigned long long)minlive);
			if (!any && r != maxheld) violate("G01", "begin-end", "begin is %llu although all work up to %llu is finished", (unsigned long long)r, (unsigned long long)maxheld);
			if (definite && r < minmaybe) violate("G01", "begin-lags", "begin is %llu although nothing before %llu is unfinished", (unsigned long long)r, (unsigned long long)minmaybe);
			if (any && !definite && r < minmaybe && r < maxheld) violate("G01", "begin-lags", "begin is %llu although nothing before %llu is unfinished", (unsigned long long)r, (unsigned long long)minmaybe);
		}
	};
	run_clients([&](u64 c) {
		map<u64, vector<std::pair<PT::ProgressHolder, u64>>> slot;
		auto drop1 = [&](u64 s) {
			auto &v = slot[s];
			if (v.empty()) return;
			u64 id = v.back().second; bool last = v.size() == 1;
			{ ATOMIC; ++seq; if (last) hs[id].db = seq; }
			v.pop_back();
			{ ATOMIC; ++seq; if (last) hs[id].de = seq; }
		};
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			u64 s = num(h, 1), x = num(h, 2);
			if (v == "sleep") nap(s);
			else if (v == "hold") {
				while (!slot[s].empty()) drop1(s);
				u64 id; { ATOMIC; id = ++ids; hs[id] = H{ x, ++seq, 0, 0, 0 }; W->stats["holds"]++; }
				auto p = pt->hold(x);
				{ ATOMIC; hs[id].he = ++seq; }
				slot[s].push_back(std::make_pair(p, id));
			}
			else if (v == "copy") { if (!slot[s].empty()) { auto q = slot[s].back(); slot[s].push_back(q); } }
			else if (v == "drop") drop1(s);
			else if (v == "begin") { u64 b = tick(); u64 r = whole(pt->begin()); ATOMIC; check(false, b, r); }
			else if (v == "end") { u64 b = tick(); u64 r = whole(pt->end()); ATOMIC; check(true, b, r); for (auto &q : ends) if (q.first < b && q.second > r) violate("G01", "end-back", "end went back from %llu to %llu", (unsigned long long)q.second, (unsigned long long)r); ends.push_back({ seq, r }); }
		}
		for (auto &y : slot) while (!y.second.empty()) drop1(y.first);
	});
	{ u64 b = tick(); u64 r = whole(pt->begin()); ATOMIC; check(false, b, r); }
	{ u64 b = tick(); u64 r = whole(pt->end()); ATOMIC; check(true, b, r); }
	return 0;
}

// ====================================================================== rates
static int rate_main() {
	double rate, burst; bool single;
	{ ATOMIC; rate = W->cfgd("rate", 10); burst = W->cfgd("burst", 10); single = W->cfgu("takers", n_clients()) == 1; }
	static double tokens; static u64 tlast, t0;
	crucible::RateLimiter rl(rate, burst);
	t0 = tlast = simnow();
	struct Op1 { double cost; u64 b, e; };
	static vector<Op1> done; static double begun, maxcost; u64 nc; { ATOMIC; nc = W->cfgu("takers", n_clients()); }
	crucible::RateEstimator re(1, 600);
	static u64 count, count_max, reached_t; static map<u64, u64> reached;    // count -> when
	static bool est_set;
	crucible::Timer tm;
	// an estimator whose units are counted one by one
	crucible::RateEstimator units(1, 600);
	static u64 inc_begun, inc_done;
	units.update(0);
	run_clients([&](u64 c) {
		double last_age = 0;
		for (auto &h : steps(std::to_string(c))) {
			const string &v = verb(h);
			double x = h.w.size() > 1 ? atof(h.w[1].c_str()) : 0;
			if (v == "sleep") nap(u64(x));
			else if (v == "take" || v == "borrow") {
				u64 b = simnow();
				double expect = 0;
				{ ATOMIC; begun += x; maxcost = std::max(maxcost, x); }
				if (v == "take") rl.sleep_for(x); else rl.borrow(x);
				ATOMIC;
				u64 e = C->now;
				W->stats["takes"]++;
				if (single) {
					// a bucket which starts empty
					tokens -= x;
					if (v == "take") { tokens = std::min(burst, tokens + rate * (b - tlast) / 1e9); tlast = b; }
					expect = v == "take" ? std::max(0.0, -tokens / rate) : 0;
					double got = (e - b) / 1e9;
					if (got < expect - 0.001 - expect * 1e-6) violate("R01", "too-fast", "waited %.6f s to take %.3f, the rate requires %.6f s", got, x, expect);
					if (got > expect + 2) violate("R01", "too-slow", "waited %.6f s to take %.3f, the rate requires %.6f s", got, x, expect);
				}
				if (v == "take") {
					done.push_back(Op1{ x, b, e });
					// everything that was let through between the start of one and the end of this
					for (size_t k = 0; k < done.size(); ++k) {
						u64 from = done[k].b; double sum = 0;
						for (auto &d : done) if (d.b >= from && d.e <= e) sum += d.cost;
						double lim = burst + nc * maxcost + rate * (e - from) / 1e9;
						if (sum > lim + 1e-3 + lim * 1e-6) { violate("R01", "rate", "%.3f units passed within %.6f s at rate %.3f and burst %.3f", sum, (e - from) / 1e9, rate, burst); break; }
					}
					double sum = 0; for (auto &d : done) sum += d.cost;
					if (sum > rate * (e - t0) / 1e9 + 1e-3 * (1 + rate)) violate("R01", "rate", "%.3f units passed %.6f s after the start at rate %.3f", sum, (e - t0) / 1e9, rate);
					if ((e - b) / 1e9 > begun / rate + 5) violate("R01", "too-slow", "waited %.6f s although all that was ever asked for takes %.6f s", (e - b) / 1e9, begun / rate);
				}
			}
			else if (v == "ready") {
				u64 b = simnow();
				bool is = rl.is_ready();
				ATOMIC;
				if (single) {
					tokens = std::min(burst, tokens + rate * (b - tlast) / 1e9); tlast = b;
					if (tokens > 1e-6 * (1 + burst) && !is) violate("R01", "ready", "the limiter is not ready with %.6f tokens left", tokens);
					if (tokens < -1e-6 * (1 + burst) && is) violate("R01", "ready", "the limiter is ready with %.6f tokens owed", -tokens);
				}
			}
			else if (v == "update") {
				u64 n = u64(x);
				{ ATOMIC; ++seq; count = std::max(count, n); }
				re.update_monotonic(n);
				ATOMIC; est_set = true; for (u64 k = 0; k <= n && k < 4096; ++k) if (!reached.count(k)) reached[k] = C->now;
				W->stats["updates"]++;
				u64 got; { BeesScope bs; got = re.count(); }
				if (got < n) violate("R01", "count", "count is %llu after it was updated to %llu", (unsigned long long)got, (unsigned long long)n);
			}
			else if (v == "wait") {
				u64 n = u64(x);
				bool set; { ATOMIC; set = est_set; }
				if (!set) continue;
				u64 b = simnow();
				re.wait_until(n);
				ATOMIC;
				W->stats["waits"]++;
				if (count < n) violate("R01", "wait-early", "waiting for count %llu ended at count %llu", (unsigned long long)n, (unsigned long long)count);
				auto i = reached.find(n);
				if (i != reached.end() && C->now > std::max(b, i->second) + 60 * SEC) violate("R01", "wait-late", "waiting for count %llu ended %.0f s after it was reached", (unsigned long long)n, (C->now - std::max(b, i->second)) / 1e9);
			}
			else if (v == "inc") {
				{ ATOMIC; ++seq; inc_begun += u64(x); }
				if (u64(x) == 1) units.increment(); else units.increment(u64(x));
				ATOMIC; ++seq; inc_done += u64(x); W->stats["increments"]++;
			}
			else if (v == "units") {
				u64 lo; { ATOMIC; lo = inc_done; }
				u64 got = units.count();
				ATOMIC;
				if (got < lo || got > inc_begun) violate("R01", "units", "%llu units are counted, %llu to %llu were added", (unsigned long long)got, (unsigned long long)lo, (unsigned long long)inc_begun);
			}
			else if (v == "more") {
				u64 lo; { ATOMIC; lo = inc_done; }
				units.wait_for(u64(x));
				ATOMIC;
				W->stats["waits"]++;
				if (inc_begun < lo + u64(x)) violate("R01", "wait-early", "waiting for %llu more units ended when at most %llu were added", (unsigned long long)u64(x), (unsigned long long)(inc_begun - lo));
			}
			else if (v == "est") {
				double s = re.seconds_until(u64(x)), s2 = re.seconds_for(u64(x) % 1000);
				auto r = re.rate();
				ATOMIC;
				W->stats["estimates"]++;
				if (!(s >= 1 && s <= 600) || !(s2 >= 1 && s2 <= 600)) violate("R01", "estimate", "estimated waiting time %.3f/%.3f s is outside of 1..600 s", s, s2);
				if (!(r > 0) || r != r) violate("R01", "estimate", "estimated rate is %.6f", r);
			}
			else if (v == "age") {
				double a = tm.age();
				ATOMIC;
				double real = (C->now - t0) / 1e9;
				if (a < last_age) violate("R01", "age", "the age of a timer went back from %.6f to %.6f", last_age, a);
				if (a > real + 0.2 || a < real - 0.2) violate("R01", "age", "the age of a timer is %.6f s after %.6f s", a, real);
				last_age = a;
			}
		}
	});
	u64 got = units.count();
	if (got != inc_done) violate("R01", "units", "%llu units are counted, %llu were added", (unsigned long long)got, (unsigned long long)inc_done);
	return 0;
}

int hash_harness();
int harness_main(const string &name) {
	{
		ATOMIC;
		vals = new map<u64, Val>; constructing = new map<u64, int>; n_construct = new map<u64, u64>; n_invalid = new map<u64, u64>; expired_after = new map<u64, u64>;
		objs = new map<u64, ObjInfo>; holding = new map<u64, map<u64, Holding>>;
	}
	if (name == "T01" || name == "T02") { PROP = name == "T01" ? "T01" : "T02"; return tasks_main(); }
	if (name == "load") return load_main();
	if (name == "lru") return lru_main();
	if (name == "named") return named_main();
	if (name == "pool") return pool_main();
	if (name == "lockset") return lockset_main();
	if (name == "progress") return progress_main();
	if (name == "rate") return rate_main();
	if (name == "hash") return hash_harness();
	return 9;
}
