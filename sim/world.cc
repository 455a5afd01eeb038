// The simulated world: plan, user operations, phases, oracles, state directory, controller.
#include "world.h"
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <linux/btrfs.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sched.h>
#include <unistd.h>
#include <algorithm>
#include <functional>

extern "C" long raw_syscall6(long n, long a, long b, long c, long d, long e, long f);
extern "C" long raw_write(int fd, const void *p, size_t n);
extern "C" [[noreturn]] void raw_exit(int code);
int bees_real_main(int argc, char **argv);
int harness_main(const std::string &name);      // library level programs

World *W;
int g_verbose = 0;
static FS *g_fs;

std::string strf(const char *fmt, ...) {
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void wlog(const char *fmt, ...) {
	if (!g_verbose) return;
	char b[2048]; va_list ap; va_start(ap, fmt);
	int n = snprintf(b, sizeof b, "[%d %14.6f %2d] ", W ? W->inc : 0, C ? C->now / 1e9 : 0, g_cur ? g_cur->id : -1);
	n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	raw_write(3, b, n);
}
void violate(const char *prop, const std::string &key, const char *fmt, ...) {
	SimScope ss;
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	wlog("VIOLATION %s %s: %s", prop, key.c_str(), b);
	for (auto &v : W->violations) if (v.prop == prop && v.key == key) { W->stats["violations_repeated"]++; return; }
	if (W->violations.size() > 40) return;
	W->violations.push_back(Violation{ prop, key, b, C->now, C->steps, W->inc });
	ev_hash(0xbad, W->violations.size());
	// the profile says that a violation of this property is one of another property, too
	std::string also = W->cfgs((std::string("also_") + prop).c_str(), "");
	if (!also.empty()) violate(also.c_str(), key, "%s", b);
	// nothing more to learn from this run
	if (W->cfgu("stop_on_violation", 1) && (W->only.empty() || W->only.count(prop))) W->stop_now = true;
}
static std::string die_prop() { return W->cfgs("die_prop", ""); }
static void die_violation(const std::string &key, const std::string &msg) {
	std::string p = die_prop();
	W->stats["deaths"]++;
	if (p.empty()) p = "NONE";
	size_t i = 0;
	while (i < p.size()) { size_t j = p.find(',', i); if (j == std::string::npos) j = p.size(); violate(p.substr(i, j - i).c_str(), key, "%s", msg.c_str()); i = j + 1; }
}

u64 world_entropy() { return W->erng.next(); }
unsigned world_ncpu() { if (!W) return 4; SimScope ss; return W->cfgu("ncpu", 4); }

// ====================================================================== contents
static std::vector<u32> parse_spec(const std::string &s) {
	std::vector<u32> v;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(',', i); if (j == std::string::npos) j = s.size();
		std::string t = s.substr(i, j - i); i = j + 1;
		if (t.empty()) continue;
		char k = t[0];
		if (k == 'z') { v.insert(v.end(), atoi(t.c_str() + 1), 0); continue; }
		const char *p = t.c_str(); u32 flag = 0; bool rep = false;
		if (k == 'c') { flag = CID_COLLIDE; ++p; }
		if (k == 'r') { rep = true; ++p; }
		char *e; u32 base = strtoul(p, &e, 10); u32 n = 1;
		if (*e == '+' || *e == '*') n = strtoul(e + 1, nullptr, 10);
		for (u32 x = 0; x < n; ++x) v.push_back((rep ? base : base + x) | flag);
	}
	return v;
}

// ====================================================================== shadow model of user data
static u32 sh_get(const Inode &i, u64 b) { auto it = i.shadow.find(b); return it == i.shadow.end() ? 0 : it->second; }
static void sh_set(Inode &i, u64 b, u32 c) { if (c) i.shadow[b] = c; else i.shadow.erase(b); }
void shadow_write(u64 root, u64 ino, u64 off, const u8 *p, u64 len) {
	Inode *i = fs_inode(root, ino); if (!i) return;
	u64 end = off + len;
	while (off < end) {
		u64 b = off / BS, bo = off % BS, n = std::min(BS - bo, end - off);
		sh_set(*i, b, content_patch(sh_get(*i, b), bo, n, p));
		p += n; off += n;
	}
	i->shadow_size = std::max(i->shadow_size, end);
}
static void sh_trunc(Inode &i, u64 size) {
	if (size < i.shadow_size) {
		if (size % BS) sh_set(i, size / BS, content_truncate(sh_get(i, size / BS), size % BS));
		i.shadow.erase(i.shadow.lower_bound((size + BS - 1) / BS), i.shadow.end());
	}
	i.shadow_size = size;
}

static void content_bad(const char *when, u64 root, u64 ino, const std::string &what) {
	violate("P01", "content", "%s of %s after %s", what.c_str(), fs_path(root, ino).c_str(), when);
}
void check_content(const char *when, u64 root, u64 ino) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE || i->tmp) return;
	W->stats["content_checks"]++;
	if (i->size != i->shadow_size) { content_bad(when, root, ino, strf("size is %llu instead of %llu", (unsigned long long)i->size, (unsigned long long)i->shadow_size)); return; }
	if (i->flags != i->shadow_flags) { content_bad(when, root, ino, "attributes changed"); return; }
	u64 n = (i->size + BS - 1) / BS;
	for (u64 b = 0; b < n; ++b) {
		u32 a = fs_block(*i, b), s = sh_get(*i, b);
		if (a != s) {
			// the tail of the last block is not part of the file
			if (b == n - 1 && i->size % BS && content_truncate(a, i->size % BS) == content_truncate(s, i->size % BS)) continue;
			content_bad(when, root, ino, strf("block %llu has the wrong content (%#x instead of %#x)", (unsigned long long)b, a, s));
			return;
		}
	}
}
void check_all_content(const char *when) {
	for (auto &s : F->subs) for (auto &i : s.second.inodes) check_content(when, s.first, i.first);
	std::string why;
	if (!fs_check(why)) { W->stats["model_broken"]++; W->model_error = why + " after " + when; }
}

// ====================================================================== what has been read
static bool plain_refs(const Extent &e, u64 *changed = nullptr);
// An extent that an earlier run had finished with long before it last saved its scan position is read again.
static void repeated(const Extent &e, World::ExtRead &x, u64 root, u64 ino) {
	auto h = W->saved_until.find(x.inc);
	u64 chg = 0;
	if (h == W->saved_until.end() || W->first_pass_done || W->had_fault || !plain_refs(e, &chg) || chg >= x.first) return;
	for (u32 c : e.cids) { auto w = F->cid_writes.find(c); if (!c || w == F->cid_writes.end() || w->second != 1) return; }
	x.again = true;
	// the position is that of the first extent, or in the subvol modes the first inode, which isn't finished
	if (W->inco("m", "0") != "4" ? ino > W->done_ino[{x.inc, root}] : e.bytenr >= W->done_ext[x.inc]) return;
	W->stats["reread_after_restart"]++;
	if (x.last + W->repeat_slack() > h->second) return;
	W->repeats++;
	if (W->repeats == 1) W->repeat_ex = strf("%s (extent %#llx), which run %llu had read %.0f s before its position was to be saved", fs_path(root, ino).c_str(), (unsigned long long)e.bytenr, (unsigned long long)x.inc, (h->second - x.last) / 1e9);
	if (W->repeats == (u64)W->cfgu("repeat_max", 4)) violate("P20", "repeated", "data is read again after a restart, for example %s", W->repeat_ex.c_str());
}
// The order in which extents are read for the first time (one worker, nothing changes meanwhile).
static int size_tier(const Extent &e) {
	u64 l = e.disk_len; int t = 0;
	for (u64 lim : { 32ULL << 20, 8ULL << 20, 2ULL << 20, 512ULL << 10, 128ULL << 10 }) { if (l > lim) return t; ++t; }
	return t;
}
static void order_check(const Extent &e, u64 root, u64 ino, u64 off) {
	if (!plain_refs(e)) return;
	const int mode = atoi(W->inco("m", "0").c_str());
	const int tier = size_tier(e);
	static const char *const rule[] = { "the lowest inode number of all subvolumes first", "by inode number and offset", "one subvolume after the other", "by inode number and offset", "by address within each group of sizes" };
	std::map<int, u64> pending;
	for (auto &y : F->ext) {
		const Extent &o = y.second;
		auto r = W->ext_read.find(o.uid);
		if (&o == &e || !plain_refs(o) || (r != W->ext_read.end() && !r->second.blocks.empty())) continue;
		bool bad = false;
		if (mode == 4) {
			bad = size_tier(o) == tier && o.bytenr < e.bytenr;
			pending[size_tier(o)]++;
		} else for (auto &f : o.refs) {
			const u64 fr = std::get<0>(f), fi = std::get<1>(f), fo = std::get<2>(f);
			if (fr == root && (fi < ino || (fi == ino && fo < off))) bad = true;
			else if (mode == 2 && fr < root) bad = true;
			else if (mode == 0 && fi < ino) bad = true;
			if (bad) break;
		}
		if (!bad) continue;
		W->stats["order_bad"]++;
		if (++W->order_bad == W->cfgu("order_max", 1)) {
			auto &f = *o.refs.begin();
			violate("P21", "order", "scan mode %d (%s): %s was read at %llu although %s at %llu had not been read yet (extents %#llx and %#llx)", mode, rule[mode > 4 ? 4 : mode], fs_path(root, ino).c_str(), (unsigned long long)off, fs_path(std::get<0>(f), std::get<1>(f)).c_str(), (unsigned long long)std::get<2>(f), (unsigned long long)e.bytenr, (unsigned long long)o.bytenr);
		}
		break;
	}
	W->stats["order_reads"]++;
	if (mode == 4) {
		// the groups of sizes take turns at least, so that large extents, of which there are fewer, are done early
		for (auto &t : pending) if (t.first < tier && ++W->passed_over[t.first] == W->cfgu("order_tiers", 12))
			violate("P21", "tier-waits", "%llu smaller extents were read one after another while an extent of size group %d had not been read", (unsigned long long)W->passed_over[t.first], 250 + t.first);
		W->passed_over[tier] = 0;
	} else if ((mode == 1 || mode == 3) && W->order_last != std::make_pair(root, ino)) {
		// one file of each subvolume in turn, but with "recent" new data in a subvolume that was completely read before comes first
		W->order_last = { root, ino };
		std::map<u64, u64> waits;                   // subvolume -> its youngest unread data
		for (auto &y : F->ext) {
			const Extent &o = y.second;
			auto r = W->ext_read.find(o.uid);
			if (&o == &e || !plain_refs(o) || o.refs.size() > 1 || (r != W->ext_read.end() && !r->second.blocks.empty())) continue;
			auto &f = *o.refs.begin();
			u64 &w = waits[std::get<0>(f)];
			w = std::max(w, fs_inode(std::get<0>(f), std::get<1>(f))->changed_at);
		}
		for (auto &s : F->subs) if (!waits.count(s.first) && s.first != root) ++W->root_clean[s.first]; else if (!W->root_done.count(s.first)) W->root_clean[s.first] = 0;
		// by now bees has had a turn in which it found the end of these subvolumes
		for (auto &s : F->subs) if (W->root_clean[s.first] > 2 * F->subs.size() + 2) W->root_done.insert({ s.first, C->now });
		const u64 limit = F->subs.size() * 2 + 4;
		bool fresh = false;
		for (auto &w : waits) fresh = fresh || W->root_done.count(w.first);
		for (auto &w : waits) if (w.first != root) {
			u64 n = 0;
			if (w.second > W->inc_start && !W->root_done.count(w.first)) continue;
			if (mode == 3 && W->root_done.count(w.first)) {
				if (W->root_done.count(root) || W->had_restart || w.second < W->root_done[w.first] || w.second + 4200 * SEC > C->now) continue;
				n = ++W->passed_fresh[w.first]; W->stats["order_fresh"]++;
				if (n == 4) violate("P21", "recent-waits", "with scan mode 3 %llu files of the subvolume %s, which has not been completely read yet, were read while new data in %s waited", (unsigned long long)n, F->subs[root].name.c_str(), F->subs[w.first].name.c_str());
			} else if (!fresh && !W->had_restart) {      // (after a kill some go back further than others)
				n = ++W->passed_over[w.first];
				W->stats["order_passed_sub_max"] = std::max<u64>(W->stats["order_passed_sub_max"], n);
				if (n == limit) violate("P21", "subvol-waits", "with scan mode %d %llu other files were read one after another while %s had data to be read", mode, (unsigned long long)n, F->subs[w.first].name.c_str());
			}
		}
		W->passed_over[root] = W->passed_fresh[root] = 0;
	}
}
// ====================================================================== throttling
// Each operation is followed by a delay which makes up the factor times the average duration of its kind.
void throttle_settle() {
	SimScope ss;
	auto it = W->thr_last.find(g_cur->id);
	if (it == W->thr_last.end() || it->second.kind < 0) return;
	World::ThrOp &o = it->second;
	static const char *const names[] = { "dedupe", "resolve", "extent map" };
	World::ThrSum &t = W->thr_sum[o.kind];
	const double factor = strtod(W->inco("throttle", "0").c_str(), nullptr), slop = 0.05 * SEC;
	const double avg = static_cast<double>(t.used) / t.n, d = o.dur, s = o.slept;
	const double hi = factor > 0 ? std::max(0.0, std::min(60.0 * SEC, factor * (t.n < 40 ? t.longest : std::min<double>(1.5 * avg, t.longest)) - d)) + slop : 0;
	const double lo = factor > 0 && t.n >= 20 && t.used >= 3 * SEC && avg >= 0.2 * SEC ? std::min(60.0 * SEC, 0.45 * factor * avg - ((o.slept_at ? o.slept_at : C->now) - o.t0)) - slop : 0;
	if (s > hi) violate("P22", factor > 0 ? "too-long" : "delay-without", "after a %s of %.3f s (average %.3f s of %llu) bees slept %.3f s, with throttle factor %g at most %.3f s", names[o.kind], d / SEC, avg / SEC, (unsigned long long)t.n, s / SEC, factor, hi / SEC);
	else if (s < lo) violate("P22", "too-short", "after a %s of %.3f s (average %.3f s of %llu) bees slept %.3f s, with throttle factor %g at least %.3f s", names[o.kind], d / SEC, avg / SEC, (unsigned long long)t.n, s / SEC, factor, lo / SEC);
	if (lo > 0) W->stats["throttle_low_checked"]++;
	o.kind = -1;
}
void throttle_start(int kind) {
	SimScope ss;
	throttle_settle();
	for (auto &x : W->thr_last) if (x.second.sleeping) { W->throttle_overlap++; break; }
	W->throttle_starts++;
	W->stats["throttle_overlap"] = W->throttle_overlap; W->stats["throttle_starts"] = W->throttle_starts;
}
void throttle_done(int kind, u64 dur) {
	SimScope ss;
	World::ThrSum &t = W->thr_sum[kind];
	t.n++; t.used += dur; t.longest = std::max(t.longest, dur);
	World::ThrOp &o = W->thr_last[g_cur->id];
	o.kind = kind; o.dur = dur; o.slept = o.slept_at = 0; o.t0 = C->now - dur;
}
static void throttle_sleep(u64 ns, bool before) {
	if (!W->throttle_on) return;
	SimScope ss;
	auto it = W->thr_last.find(g_cur->id);
	if (it == W->thr_last.end() || it->second.kind < 0) return;
	it->second.sleeping = before;
	if (before) { if (!it->second.slept_at) it->second.slept_at = C->now; it->second.slept += ns; W->stats["throttle_sleeps"]++;  W->stats["throttle_sleep_ms"] += ns / MS; }
}
void mark_scanned(u64 root, u64 ino, u64 off, u64 len) {
	Inode *i = fs_inode(root, ino);
	if (!i) return;
	i->read_at = C->now;
	for (u64 b = off / BS; b <= (off + len - 1) / BS; ++b) {
		u64 eo = 0; u64 p = fs_phys(*i, b, &eo, nullptr, true);
		if (!p) continue;
		World::ExtRead &x = W->ext_read[F->ext[p].uid];
		if (W->read_ms && x.inc != (u64)W->inc && x.blocks.size() >= F->ext[p].cids.size() && !x.again) repeated(F->ext[p], x, root, ino);
		if (W->read_ms && W->inc && x.blocks.empty()) W->stats["reads_after_restart"]++;
		if (x.blocks.empty() && W->order_on) order_check(F->ext[p], root, ino, b * BS - eo);
		x.inc = W->inc;
		x.first = std::min(x.first, C->now); x.last = C->now;
		if (!x.blocks.insert(eo).second) {
			W->stats["rereads"]++;
			if (W->order_on && !W->had_restart && plain_refs(F->ext[p]))
				violate("P21", "read-twice", "%s is read again at %llu (extent %#llx with %zu references), nothing has changed since it was read", fs_path(root, ino).c_str(), (unsigned long long)(b * BS), (unsigned long long)p, F->ext[p].refs.size());
		}
		else W->stats["first_reads"]++;
	}
}

void world_activity() { W->last_activity = C->now; }

// ====================================================================== state directory
void home_commit_dir() {
	Home &h = W->home;
	for (auto &op : h.pending) {
		if (op.kind == 0) h.dnames[op.a] = op.id;
		else if (op.kind == 1) { if (h.dnames.count(op.a) && h.dnames[op.a] == op.id) h.dnames.erase(op.a); h.dnames[op.b] = op.id; }
		else h.dnames.erase(op.a);
	}
	h.pending.clear();
}
static bool hclean(const HFile &f) { return !f.size_dirty && f.dirty_pages.empty(); }
static bool is_version(const std::vector<u8> &d) {
	std::string s(d.begin(), d.end());
	for (auto i = W->home.state_versions.rbegin(); i != W->home.state_versions.rend(); ++i) if (*i == s) return true;
	return false;
}
void home_state_placed(HFile &f) {
	std::string s(f.data.begin(), f.data.end());
	wlog("state placed, %zu bytes:\n%s", s.size(), s.c_str());
	W->state_saves++;
	W->state_fail_t = 0;
	if (s.size() < f.intended) violate("P07", "incomplete", "a scan state file with %zu of %llu bytes was put in place", s.size(), (unsigned long long)f.intended);
	else if (s.empty() || s.back() != '\n') violate("P07", "malformed", "the scan state file put in place is empty or ends in the middle of a line");
	if (W->home.state_versions.empty() || W->home.state_versions.back() != s) W->home.state_versions.push_back(s);
	if (W->home.state_versions.size() > 400) W->home.state_versions.erase(W->home.state_versions.begin(), W->home.state_versions.begin() + 100);
	W->last_state = s;
}
// the hash table file must not disappear, shrink or be replaced once it holds something
static void table_check(const char *when) {
	Home &h = W->home;
	auto it = h.names.find("beeshash.dat");
	u64 id = it == h.names.end() ? 0 : it->second, size = id ? h.files[id].data.size() : 0;
	if (W->table_id && (id != W->table_id || size < W->table_size)) {
		auto old = h.files.find(W->table_id);
		bool used = id == W->table_id;
		if (!used && old != h.files.end()) for (u8 c : old->second.data) if (c) { used = true; break; }
		if (used) violate("P08", "table-lost", "after %s the hash table file which holds the entries collected so far is %s", when, !id ? "gone" : id != W->table_id ? "replaced by another one" : "shorter than before");
	}
	W->table_id = id; W->table_size = size;
}
void home_check(const char *when) {
	Home &h = W->home;
	if (!strcmp(when, "crash")) W->table_id = 0;
	table_check(when);
	static const std::string N = "beescrawl.dat";
	// visible now: what a killed bees leaves behind
	auto live = h.names.find(N);
	if (live != h.names.end()) {
		HFile &f = h.files[live->second];
		if (!is_version(f.data)) violate("P07", "live", "after %s the scan state file is not a state that was completely written", when);
	} else if (!h.state_versions.empty()) violate("P07", "gone", "after %s there is no scan state file", when);
	// after a power failure: every prefix of the pending directory operations
	std::map<std::string, u64> d = h.dnames;
	for (size_t k = 0;; ++k) {
		auto it = d.find(N);
		if (it != d.end()) {
			HFile &f = h.files[it->second];
			bool ok;
			if (f.orderly) ok = is_version(f.data);
			else if (hclean(f)) ok = is_version(f.durable);
			else ok = h.btrfs && !h.state_durable;
			if (!ok) { violate("P07", "torn", "a power failure after %s leaves a scan state file that was never completely written", when); break; }
		} else if (h.state_durable) { violate("P07", "lost", "a power failure after %s leaves no scan state file", when); break; }
		if (k >= h.pending.size()) break;
		DirOp &op = h.pending[k];
		if (op.kind == 0) d[op.a] = op.id;
		else if (op.kind == 1) { d.erase(op.a); d[op.b] = op.id; }
		else d.erase(op.a);
	}
	auto dn = h.dnames.find(N);
	if (dn != h.dnames.end() && (hclean(h.files[dn->second]) || h.files[dn->second].orderly)) h.state_durable = true;
}
static void hflush(HFile &f) { f.durable = f.data; f.durable_size = f.data.size(); f.size_dirty = false; f.dirty_pages.clear(); }
static void home_sync() {
	Home &h = W->home;
	for (auto &f : h.files) if (!hclean(f.second)) hflush(f.second);
	home_commit_dir();
	// forget unreferenced files
	std::set<u64> used;
	for (auto &n : h.names) used.insert(n.second);
	for (auto &o : W->fds) if (o.second.kind == OF_HOMEFILE) used.insert(o.second.hid);
	for (auto i = h.files.begin(); i != h.files.end();) { if (!used.count(i->first)) i = h.files.erase(i); else ++i; }
	home_check("sync");
}
void home_crash(bool machine) {
	Home &h = W->home;
	if (!machine) return;
	size_t cut = h.pending.empty() ? 0 : W->wrng.below(h.pending.size() + 1);
	for (size_t k = cut; k < h.pending.size(); ++k) W->stats["home_ops_lost"]++;
	std::vector<DirOp> lost(h.pending.begin() + cut, h.pending.end());
	h.pending.resize(cut);
	home_commit_dir();
	h.names = h.dnames;
	std::map<u64, HFile> nf;
	for (auto &n : h.names) {
		HFile f = h.files[n.second];
		if (f.orderly) f.durable = f.data;
		else if (!hclean(f)) {
			u64 r = W->wrng.below(4);
			std::vector<u8> d = f.durable;
			if (d.size() < f.data.size() && r) d.resize(f.data.size());
			if (r >= 2) for (u64 p : f.dirty_pages) if (W->wrng.chance(0.5)) {
				u64 a = p * 4096, b = std::min<u64>(a + 4096, d.size());
				// sectors of 512 bytes make torn pages possible
				for (u64 s = a; s < b; s += 512) if (r == 2 || W->wrng.chance(0.7)) memcpy(d.data() + s, f.data.data() + s, std::min<u64>(512, b - s));
			}
			W->stats["home_torn"]++;
			f.durable = d;
		}
		f.data = f.durable; f.dirty_pages.clear(); f.size_dirty = false;
		nf[n.second] = f;
	}
	h.files = nf;
	// a first version that was never guaranteed to survive may be damaged or missing
	auto it = h.names.find("beescrawl.dat");
	if (it != h.names.end()) {
		W->last_state.assign(h.files[it->second].data.begin(), h.files[it->second].data.end());
		if (!h.state_durable && !is_version(h.files[it->second].data)) h.state_versions.push_back(W->last_state);
	} else if (!h.state_durable) h.state_versions.clear();
	home_check("crash");
}

// ====================================================================== hash table file
static HFile *hash_file() {
	auto i = W->home.names.find("beeshash.dat");
	return i == W->home.names.end() ? nullptr : &W->home.files[i->second];
}
static const u8 *hash_mem() { return W->mmap_addr ? reinterpret_cast<const u8 *>(W->mmap_addr) : nullptr; }
const u64 TOXIC = 1 << 9;
// every cell present in both memory images must be in the file
static bool hash_missing(const u8 *m0, const u8 *m1, const HFile &f, u64 len, std::string &what) {
	for (u64 b = 0; b + 4096 <= len; b += 4096) {
		if (!memcmp(m1 + b, f.data.data() + b, 4096)) continue;
		const u64 *a = reinterpret_cast<const u64 *>(m0 + b), *c = reinterpret_cast<const u64 *>(m1 + b), *d = reinterpret_cast<const u64 *>(f.data.data() + b);
		for (int i = 0; i < 512; i += 2) {
			if (!a[i] && !a[i + 1]) continue;
			bool in1 = false, inf = false;
			// the toxic flag is dropped from the memory copy when the table is loaded, and that is not written back
			for (int j = 0; j < 512; j += 2) { if (c[j] == a[i] && c[j + 1] == a[i + 1]) in1 = true; if (d[j] == a[i] && (d[j + 1] & ~TOXIC) == (a[i + 1] & ~TOXIC)) inf = true; }
			if (in1 && !inf) { what = strf("entry %016llx:%llx of bucket %llu", (unsigned long long)a[i], (unsigned long long)a[i + 1], (unsigned long long)(b / 4096)); return true; }
		}
	}
	return false;
}
// While the table is written during a stop: an entry that a task still running has erased is not
// expected in the file, even if the task adds it again later.
void hash_erased(u64 off, u64 n) {
	const u8 *m = hash_mem();
	if (!m || W->hash_at_term.empty()) return;
	for (u64 b = off & ~4095ULL; b + 4096 <= std::min<u64>({ off + n, W->mmap_len, W->hash_at_term.size() }); b += 4096) {
		u64 *a = reinterpret_cast<u64 *>(W->hash_at_term.data() + b); const u64 *c = reinterpret_cast<const u64 *>(m + b);
		for (int i = 0; i < 512; i += 2) if (a[i] || a[i + 1]) {
			bool in = false;
			for (int j = 0; j < 512 && !in; j += 2) in = c[j] == a[i] && c[j + 1] == a[i + 1];
			if (!in) a[i] = a[i + 1] = 0;
		}
	}
}
void hash_compare_at_exit() {
	HFile *f = hash_file();
	const u8 *m = hash_mem();
	if (!f || !m || W->hash_at_term.empty()) return;
	u64 len = std::min<u64>({ W->mmap_len, f->data.size(), W->hash_at_term.size() });
	std::string what;
	W->stats["hash_exit_checks"]++;
	if (W->hash_fault_t && W->hash_fault_t >= W->term_time) return;
	if (hash_missing(W->hash_at_term.data(), m, *f, len, what))
		violate("P08", "exit", "%s, in memory since before the stop request, is not in the hash table file after a clean stop", what.c_str());
}
static void hash_periodic() {
	HFile *f = hash_file();
	const u8 *m = hash_mem();
	if (!f || !m) return;
	u64 len = std::min<u64>(W->mmap_len, f->data.size());
	if (!memcmp(m, f->data.data(), len)) { W->hash_prev.clear(); W->hash_fault_open = false; return; }
	if (!W->hash_prev.empty() && C->now - W->hash_prev_t >= W->cfgu("hash_bound_s", 3600) * SEC) {
		std::string what;
		if (!W->hash_fault_open && hash_missing(W->hash_prev.data(), m, *f, len, what))
			violate("P08", "writeback", "%s has been in memory for %.0f s and is not in the hash table file", what.c_str(), (C->now - W->hash_prev_t) / 1e9);
		W->hash_prev.clear();
	}
	if (W->hash_prev.empty()) { W->hash_prev.assign(m, m + len); W->hash_prev_t = C->now; }
}

// ====================================================================== operations of other parties
struct Target { u64 root = 0, ino = 0; };
static bool target(const std::string &s, Target &t) {
	size_t c = s.find(':');
	std::string sub, file = s;
	if (c != std::string::npos) { sub = s.substr(0, c); file = s.substr(c + 1); }
	auto f = W->filesym.find(file);
	if (f == W->filesym.end()) return false;
	if (sub.empty()) sub = W->filehome[file];
	auto r = W->subsym.find(sub);
	if (r == W->subsym.end()) return false;
	t.root = r->second; t.ino = f->second;
	Inode *i = fs_inode(t.root, t.ino);
	return i && !i->links.empty() && fs_sub(t.root) && !fs_sub(t.root)->deleted;
}
static bool writable(const Target &t) { Subvol *s = fs_sub(t.root); return s && !s->ro && !s->deleted; }
static u64 race_window() { return (W->send_used ? 12000 : W->had_pause || !W->slow_cids.empty() ? 1800 : 300) * SEC; }
// a file is going to change: other references of its data may not be known to bees
static void extents_raced(Inode &i) {
	bool work = i.read_at && C->now < i.read_at + race_window();
	for (auto &f : i.fe) if (f.second.bytenr) {
		auto e = F->ext.find(f.second.bytenr);
		if (e == F->ext.end()) continue;
		if (work) e->second.raced = true;
		// a snapshot which bees has not noticed yet keeps data whose turn in the original had not come
		for (auto &r : e->second.refs) { Subvol *s = fs_sub(std::get<0>(r)); if (s && s->snap_at && C->now < s->snap_at + race_window()) e->second.raced = true; }
	}
}
static void changed(const Target &t) { if (Inode *i = fs_inode(t.root, t.ino)) { i->changed_at = C->now; i->mtime = C->now; if (i->read_at && C->now < i->read_at + race_window()) i->raced = true; } W->user_changes++; W->last_user_change = C->now; }
static u64 num(const std::string &s) { return strtoull(s.c_str(), nullptr, 0); }


static void signal_bees(int s) {
	if (!g_threads) return;
	W->sigq.push_back(s);
	wlog("signal %d", s);
	if (s == SIGUSR1 && !W->paused) { W->paused = true; W->pause_time = C->now; W->had_pause = true; }
	if (s == SIGUSR2) { W->paused = false; W->resume_time = C->now; }
	if (s == SIGTERM || s == SIGINT) {
		if (!W->term_sent) {
			W->term_sent = true; W->term_time = C->now; W->terms.push_back(C->now); W->term_steps = C->steps; W->term_sig = s;
			W->paused = false;
			if (const u8 *m = hash_mem()) W->hash_at_term.assign(m, m + W->mmap_len);
		}
	}
	for (Thr *t : *g_threads) if (t->state == T_BLOCK && t->wkind == W_SIGNAL) { core_wake(t); break; }
}

static bool in_child = false;

// the load has been well above the target since when
static void load_changed() {
	double g = strtod(W->inco("g", "0").c_str(), nullptr);
	double over = W->loadavg - g;
	if (!g || over < 0.4) { W->load_high_since = 0; return; }
	W->load_over = over;
	W->load_min = strtoull(W->inco("G", "0").c_str(), nullptr, 0);
	W->load_settle = (W->cfgu("task_limit", 8) / over * 5 + 10) * SEC + W->cfgu("pause_grace_ms", 120000) * MS;
	if (!W->load_high_since) W->load_high_since = C->now;
}

void world_op(Op &op) {
	SimScope ss;
	if (op.done) return;
	op.done = true;
	const auto &w = op.w;
	const std::string &v = w[0];
	auto arg = [&](size_t i) -> std::string { return i < w.size() ? w[i] : std::string(); };
	int rv = 0;
	Target t, t2;
	u64 id;
	bool userop = true;
	static const std::set<std::string> changes = { "write", "writeb", "trunc", "falloc", "punch", "clone", "rename", "unlink", "defrag" };
	if (changes.count(v) && target(arg(v == "clone" ? 3 : 1), t)) extents_raced(*fs_inode(t.root, t.ino));
	if (v == "delsub" && W->subsym.count(arg(1))) if (Subvol *s = fs_sub(W->subsym[arg(1)])) for (auto &i : s->inodes) extents_raced(i.second);
	if (v == "mksub") {
		u64 parent = arg(2).empty() || !W->subsym.count(arg(2)) ? 5 : W->subsym[arg(2)];
		rv = fs_mksub(parent, arg(1), &id); if (!rv) W->subsym[arg(1)] = id;
	} else if (v == "snap") {
		u64 parent = W->subsym.count(arg(3)) ? W->subsym[arg(3)] : 5;
		rv = W->subsym.count(arg(2)) ? fs_snapshot(W->subsym[arg(2)], parent, arg(1), arg(4) == "ro", &id) : -ENOENT;
		if (!rv) W->subsym[arg(1)] = id;
	} else if (v == "delsub") {
		rv = W->subsym.count(arg(1)) ? fs_delsub(W->subsym[arg(1)]) : -ENOENT;
	} else if (v == "setro") {
		Subvol *s = W->subsym.count(arg(1)) ? fs_sub(W->subsym[arg(1)]) : nullptr;
		if (!s || s->deleted) rv = -ENOENT;
		else if (!num(arg(2)) && s->send) rv = -EPERM;
		else { if (s->ro != !!num(arg(2))) s->ro_changed = C->now; if (num(arg(2)) && !s->ro) { for (auto &i : s->inodes) fs_flush(s->id, i.first); s->ro_since = C->now; } s->ro = num(arg(2)); F->root_mod = F->transid; F->dirty = true; }
	} else if (v == "mkdir") {
		u64 root = W->subsym.count(arg(2)) ? W->subsym[arg(2)] : 0;
		rv = fs_create(root, 256, arg(3).empty() ? arg(1) : arg(3), K_DIR, 0, &id); if (!rv) W->dirsym[arg(1)] = id;
	} else if (v == "symlink") {
		u64 root = W->subsym.count(arg(1)) ? W->subsym[arg(1)] : 0;
		rv = fs_create(root, 256, arg(2), K_SYMLINK, 0, &id); if (!rv) fs_inode(root, id)->target = arg(3);
	} else if (v == "mkfile") {
		// mkfile F SUB DIR FLAGS SPEC [tail]
		u64 root = W->subsym.count(arg(2)) ? W->subsym[arg(2)] : 0;
		u64 dir = arg(3) == "-" ? 256 : W->dirsym.count(arg(3)) ? W->dirsym[arg(3)] : 256;
		u32 fl = 0;
		for (char c : arg(4)) { if (c == 'n') fl |= IF_NODATACOW | IF_NODATASUM; if (c == 'd') fl |= IF_NODATASUM; if (c == 'c') fl |= IF_COMPRESS; }
		rv = fs_create(root, dir, arg(1), K_FILE, fl, &id);
		if (!rv) {
			W->filesym[arg(1)] = id; W->filehome[arg(1)] = arg(2);
			Inode &i = *fs_inode(root, id);
			u64 b = 0;
			for (u32 c : parse_spec(arg(5))) { fs_write_block(root, i, b, c); sh_set(i, b, c); ++b; }
			i.shadow_size = b * BS;
			if (w.size() > 6 && b) {
				u64 sz = (b - 1) * BS + num(arg(6));
				rv = fs_truncate(root, id, sz); sh_trunc(i, sz);
			}
			t = Target{ root, id }; changed(t);
		}
	} else if (v == "write") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else {
			Inode &i = *fs_inode(t.root, t.ino); u64 b = num(arg(2));
			for (u32 c : parse_spec(arg(3))) { fs_write_block(t.root, i, b, c); sh_set(i, b, c); ++b; }
			i.shadow_size = std::max(i.shadow_size, b * BS); i.size = std::max(i.size, i.shadow_size);
			changed(t);
		}
	} else if (v == "writeb") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else {
			u64 off = num(arg(2)), len = std::min<u64>(num(arg(3)), 65536), s = num(arg(4));
			std::vector<u8> d(len);
			for (u64 k = 0; k < len; ++k) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; d[k] = s >> 56; }
			rv = fs_write_bytes(t.root, t.ino, off, d.data(), len);
			if (!rv) shadow_write(t.root, t.ino, off, d.data(), len);
			changed(t);
		}
	} else if (v == "trunc") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else { rv = fs_truncate(t.root, t.ino, num(arg(2))); if (!rv) sh_trunc(*fs_inode(t.root, t.ino), num(arg(2))); changed(t); }
	} else if (v == "falloc") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else { u64 o = num(arg(2)), l = num(arg(3)); rv = fs_fallocate(t.root, t.ino, o, l); if (!rv) { Inode &i = *fs_inode(t.root, t.ino); i.shadow_size = std::max(i.shadow_size, o + l); } changed(t); }
	} else if (v == "punch") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else {
			Inode &i = *fs_inode(t.root, t.ino);
			u64 o = num(arg(2)) & ~(BS - 1), l = num(arg(3)) & ~(BS - 1);
			rv = fs_punch(t.root, t.ino, o, l);
			if (!rv) { u64 e = std::min(o + l, i.size & ~(BS - 1)); for (u64 b = o / BS; b * BS < e; ++b) sh_set(i, b, 0); }
			changed(t);
		}
	} else if (v == "clone") {
		// clone SRC soff DST doff len
		if (!target(arg(1), t) || !target(arg(3), t2) || !writable(t2)) rv = -ENOENT;
		else {
			u64 so = num(arg(2)), dof = num(arg(4)), len = num(arg(5));
			Inode &s = *fs_inode(t.root, t.ino), &d = *fs_inode(t2.root, t2.ino);
			if (!len && so < s.size) len = s.size - so;
			std::vector<u32> blks; for (u64 b = 0; b * BS < len; ++b) blks.push_back(sh_get(s, so / BS + b));
			rv = fs_clone(t.root, t.ino, so, t2.root, t2.ino, dof, num(arg(5)));
			if (!rv) { for (u64 b = 0; b < blks.size(); ++b) sh_set(d, dof / BS + b, blks[b]); d.shadow_size = std::max(d.shadow_size, dof + len); changed(t2); }
		}
	} else if (v == "rename") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else { if (in_child) fs_inode(t.root, t.ino)->raced = true; auto l = *fs_inode(t.root, t.ino)->links.begin(); rv = fs_rename(t.root, l.first, l.second, arg(3).empty() ? l.first : W->dirsym.count(arg(3)) ? W->dirsym[arg(3)] : 256, arg(2)); changed(t); }
	} else if (v == "link") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else { if (in_child) fs_inode(t.root, t.ino)->raced = true; rv = fs_link(t.root, t.ino, arg(3).empty() ? 256 : W->dirsym.count(arg(3)) ? W->dirsym[arg(3)] : 256, arg(2)); changed(t); }
	} else if (v == "unlink") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT;
		else { auto links = fs_inode(t.root, t.ino)->links; for (auto &l : links) rv = fs_unlink(t.root, l.first, l.second); W->user_changes++; W->last_user_change = C->now; }
	} else if (v == "defrag") {
		if (!target(arg(1), t) || !writable(t)) rv = -ENOENT; else { rv = fs_defrag(t.root, t.ino); changed(t); }
	} else if (v == "fsync") {
		if (!target(arg(1), t)) rv = -ENOENT; else fs_flush(t.root, t.ino);
	} else if (v == "commit") {
		userop = false;
		if (fs_commit() && W->keep_committed) { if (!W->committed) W->committed = new FS; *W->committed = *F; }
	} else if (v == "balance") {
		std::map<u64, Extent> old = F->ext;
		rv = fs_relocate(num(arg(1)));
		W->user_changes++; W->last_user_change = C->now;
	} else if (v == "slow") {
		// slow F blk ms: looking up the references of that extent costs so much kernel time
		if (!target(arg(1), t)) rv = -ENOENT;
		else { fs_flush(t.root, t.ino); u64 p = fs_phys(*fs_inode(t.root, t.ino), num(arg(2))); if (p) { F->ext[p].lookup_cost = num(arg(3)) * MS; if (num(arg(3)) >= 4000) for (u32 c : F->ext[p].cids) W->slow_cids.insert(c & ~CID_COLLIDE); } else rv = -ENOENT; }
		userop = false;
	} else if (v == "send") {
		Subvol *s = W->subsym.count(arg(1)) ? fs_sub(W->subsym[arg(1)]) : nullptr;
		if (!s) rv = -ENOENT; else if (num(arg(2)) && !s->ro) rv = -EPERM; else { s->send = num(arg(2)); W->send_used = true; }
		userop = false;
	} else if (v == "load") { W->loadavg = strtod(arg(1).c_str(), nullptr); W->load_time = C->now; userop = false; load_changed(); }
	else if (v == "wall") { C->wall_offset += strtoll(arg(1).c_str(), nullptr, 0) * static_cast<i64>(MS); userop = false; W->stats["wall_jumps"]++; }
	else if (v == "homesync") { home_sync(); userop = false; }
	else if (v == "sig") {
		userop = false;
		int s = arg(1) == "TERM" ? SIGTERM : arg(1) == "INT" ? SIGINT : arg(1) == "USR1" ? SIGUSR1 : arg(1) == "USR2" ? SIGUSR2 : -1;
		W->stats["signals"]++;
		if (s == SIGUSR1 && W->phase) rv = -EBUSY;       // no more pauses when changes have stopped
		else if (in_child) signal_bees(s); else rv = -ESRCH;
	} else if (v == "crash") {
		if (!in_child) { rv = -ESRCH; }
		else {
			W->stats[arg(1) == "machine" ? "machine_crashes" : "kills"]++;
			wlog("crash %s", arg(1).c_str());
			W->exit_kind = arg(1) == "machine" ? "machine" : "kill";
			ev_hash(0xc4a5, C->now);
			raw_exit(0);
		}
	} else { W->stats["bad_ops"]++; W->model_error = "unknown operation " + v; rv = -ENOSYS; }
	(void)userop;
	W->stats[rv ? "ops_failed" : "ops_done"]++;
	ev_hash(0x0b0b, rv);
	wlog("op %s -> %d", op.raw.c_str(), rv);
}

void world_site(int site, bool after) {
	auto &v = W->siteops[site];
	if (!v.empty()) {
		u64 n = W->site_count[site] - 1;
		for (u64 k : v) { Op &o = W->ops[k]; if (!o.done && o.after == after && o.nth == n && (W->phase == 0 || !o.user)) { W->stats["site_ops"]++; world_op(o); } }
	}
	if (W->stop_now) { W->exit_kind = "violation"; raw_exit(0); }
}

// ====================================================================== checks
static bool eligible(const Subvol &s, const Inode &i) {
	if (i.kind != K_FILE || i.tmp || i.links.empty() || s.deleted) return false;
	if (i.flags & (IF_NODATACOW | IF_NODATASUM)) return false;
	if (W->cfgu("send_workaround", 0) && s.ro) return false;
	if (W->unreadable.count({ s.id, i.ino })) return false;
	return true;
}
static bool hash_has_addr(const Extent &e) {
	const u8 *m = hash_mem();
	if (!m) return false;
	for (u64 k = 0; k < W->mmap_len / 16; ++k) {
		u64 a = reinterpret_cast<const u64 *>(m)[k * 2 + 1] & ~0xfffULL;
		if (a >= e.bytenr && a < e.bytenr + std::max(e.disk_len, e.ram_len)) return true;
	}
	return false;
}
// All places where an extent is used are ordinary files; false if some is not.
static bool plain_refs(const Extent &e, u64 *changed) {
	if (e.raced) return false;
	for (auto &r : e.refs) {
		Inode *i = fs_inode(std::get<0>(r), std::get<1>(r)); Subvol *s = fs_sub(std::get<0>(r));
		if (!i || !s || i->raced || !eligible(*s, *i)) return false;
		if (changed) *changed = std::max({ *changed, i->changed_at, s->ro_changed });
	}
	return !e.refs.empty();
}
// The table was prepared with an entry that names a block of this extent by its hash and address:
// to bees that is an extent it has already examined.
static void remember_gone(const Extent &e) {
	if (!W->ext_read.count(e.uid)) return;
	for (u64 k = 0; k < e.cids.size(); ++k) if (e.cids[k]) { W->gone.insert({ e.bytenr + k * BS, e.cids[k] & ~CID_COLLIDE }); if (e.compr) W->gone.insert({ e.bytenr, e.cids[k] & ~CID_COLLIDE }); }
}
static bool evil_truth(const Extent &e) {
	// the same content has been at the same address before, in an extent which is gone
	for (u64 k = 0; k < e.cids.size(); ++k) for (u64 a : { e.bytenr + k * BS, e.compr ? e.bytenr : e.bytenr + k * BS }) if (W->gone.count({ a, e.cids[k] & ~CID_COLLIDE })) return true;
	if (W->evil.empty()) return false;
	u8 b[BS];
	for (u64 k = 0; k < e.cids.size(); ++k) {
		content_expand(e.cids[k], b);
		u64 h = sim_crc64(b, BS);
		if (W->evil.count({ h, 1 })) return true;
		for (u64 a : { e.bytenr + k * BS, e.bytenr }) if (W->evil.count({ h, a & ~0xfffULL })) return true;
	}
	return false;
}
// Extents of eligible files that were never examined.
static void check_scanned(const char *when) {
	u64 total = 0, missing = 0, full = 0, part = 0; std::string ex, ex2;
	std::set<u64> seen;
	for (auto &s : F->subs) for (auto &ip : s.second.inodes) {
		Inode &i = ip.second;
		if (!eligible(s.second, i)) continue;
		u64 n = (i.size + BS - 1) / BS;
		for (u64 b = 0; b < n; ++b) {
			u64 eo = 0; u64 p = fs_phys(i, b, &eo);
			if (!p) continue;
			Extent &e = F->ext[p];
			if (e.by_bees || e.relocated) continue;         // data bees itself has copied (and compared)
			if (!seen.insert(e.uid).second) continue;
			++total;
			auto x = W->ext_read.find(e.uid);
			std::string name = strf("%s block %llu (extent %#llx of %llu blocks)", fs_path(s.first, i.ino).c_str(), (unsigned long long)b, (unsigned long long)p, (unsigned long long)(e.ram_len / BS));
			if (x == W->ext_read.end()) { if (!hash_has_addr(e) && plain_refs(e)) { ++missing; if (ex.empty()) ex = name; } continue; }
			// content that exists nowhere else: every block must have been read
			u64 chg = 0;
			if (e.partial || e.relocated || e.lookup_cost >= 4 * SEC || !plain_refs(e, &chg)) continue;
			if (chg + 1 * SEC >= x->second.first || e.last_ref + 1 * SEC >= x->second.first) continue;    // changed under the scan
			if (evil_truth(e)) continue;
			bool uniq = true;
			for (u32 c : e.cids) { auto w = F->cid_writes.find(c); if (!c || W->slow_cids.count(c) || (c & (CID_COLLIDE | CID_RAW)) || w == F->cid_writes.end() || w->second != 1) { uniq = false; break; } }
			if (!uniq) continue;
			++full;
			if (x->second.blocks.size() < e.cids.size()) { ++part; if (ex2.empty()) ex2 = strf("%llu of %zu blocks of ", (unsigned long long)x->second.blocks.size(), e.cids.size()) + name; }
		}
	}
	W->stats["scan_total"] = total; W->stats["scan_missing"] = missing; W->stats["scan_full"] += full;
	if (missing && !W->had_data_fault) violate("P06", "unscanned", "%s: %llu of %llu extents were never read, for example %s", when, (unsigned long long)missing, (unsigned long long)total, ex.c_str());
	if (part && !W->had_data_fault) violate("P06", "partly-scanned", "%s: %llu of %llu unique extents were not read completely, for example %s", when, (unsigned long long)part, (unsigned long long)full, ex2.c_str());
}
// An extent whose whole content was already known from other, older extents when it was first read must be gone.
static void check_shared(const char *when, const char *prop, u64 since) {
	struct Src { u64 uid, last; };
	std::map<u32, std::vector<std::pair<u64, u64>>> src;       // content -> (time when it was known, uid)
	u64 gap = W->cfgu("share_gap_s", 300) * SEC;
	auto usable = [&](const Extent &e, u64 *chg) {
		for (u32 c : e.cids) if (W->slow_cids.count(c & ~CID_COLLIDE)) return false;      // bees leaves data alone that is expensive to look up
		// a stale entry of the table may point to a copy without checksums, which bees can not share
		for (u32 c : e.cids) if (F->nocsum_cids.count(c & ~CID_COLLIDE)) return false;
		return !e.relocated && !e.partial && e.lookup_cost < 4 * SEC && !e.nocsum && plain_refs(e, chg) && !evil_truth(e);
	};
	for (auto &ep : F->ext) {
		Extent &e = ep.second;
		u64 chg = 0;
		if (!usable(e, &chg)) continue;
		auto x = W->ext_read.find(e.uid);
		if (x == W->ext_read.end() || x->second.blocks.size() < e.cids.size()) continue;
		u64 t = std::max({ x->second.last, chg, e.last_ref });
		if (W->had_unclean && x->second.last < W->known_since) continue;
		// a stop may catch an extent with only some of its blocks in the table
		bool cut = false;
		for (u64 ts : W->terms) if (x->second.last + 10 * SEC >= ts && x->second.first <= ts + 900 * SEC && x->second.last < ts + 900 * SEC) cut = true;
		if (cut) continue;
		if (W->had_data_fault && x->second.last < W->last_fault_t + 1 * SEC) continue;
		for (u32 c : e.cids) if (c && !(c & (CID_COLLIDE | CID_RAW))) src[c].push_back({ t, e.uid });
	}
	u64 n = 0, bad = 0; std::string ex;
	for (auto &ep : F->ext) {
		Extent &e = ep.second;
		if (e.by_bees) continue;
		u64 chg = 0;
		if (!usable(e, &chg) || e.cids.size() > 90) continue;
		auto x = W->ext_read.find(e.uid);
		if (x == W->ext_read.end()) continue;
		u64 t = x->second.first;
		if (since && t < since) continue;
		if (W->had_data_fault && t < W->last_fault_t + 60 * SEC) continue;
		if (chg >= t || e.last_ref >= t) continue;
		bool all = true; std::string from;
		for (u32 c : e.cids) {
			if (!c || (c & (CID_COLLIDE | CID_RAW))) { all = false; break; }
			bool got = false;
			auto s = src.find(c);
			if (s != src.end()) for (auto &y : s->second) if (y.second != e.uid && y.first + gap <= t) { got = true; break; }
			if (!got) { all = false; break; }
		}
		if (!all) continue;
		++n; ++bad;
		if (ex.empty()) {
			auto r = *e.refs.begin();
			ex = strf("%s at %llu (extent %#llx of %zu blocks, first read at %.3f)", fs_path(std::get<0>(r), std::get<1>(r)).c_str(), (unsigned long long)std::get<2>(r), (unsigned long long)e.bytenr, e.cids.size(), t / 1e9);
		}
	}
	(void)n;
	// A table that was full from the start may have dropped an entry that was inserted since.
	std::string init = W->cfgs("hash_init", "zero");
	if ((init == "random" || init == "dup") && bad < 4) bad = 0;
	if (bad) violate(prop, "unshared", "%s: %llu extents still hold a second copy of data that was known before they were read, for example %s", when, (unsigned long long)bad, ex.c_str());
}
// The blocks of an extent that files refer to.
static std::set<u64> ext_used_blocks(const Extent &e, bool *split) {
	std::set<u64> have;
	for (auto &r : e.refs) {
		Inode *i = fs_inode(std::get<0>(r), std::get<1>(r));
		if (!i) continue;
		auto f = i->fe.find(std::get<2>(r));
		if (f == i->fe.end()) continue;
		if (f->second.len < e.ram_len) *split = true;
		for (u64 b = f->second.ext_off / BS; b < (f->second.ext_off + f->second.len + BS - 1) / BS; ++b) have.insert(b);
	}
	return have;
}
// Extents of which files had only parts before bees started (the rest was overwritten, or parts were cloned).
static void note_split() {
	for (auto &e : F->ext) {
		bool split = false; std::set<u64> b = ext_used_blocks(e.second, &split);
		if (split) W->split0[e.second.uid] = b;
	}
}
// How much of them is not referenced any more, although they are still allocated.
static u64 split_loss() {
	u64 n = 0;
	for (auto &e : F->ext) {
		auto s = W->split0.find(e.second.uid);
		if (s == W->split0.end()) continue;
		bool split = false; std::set<u64> now = ext_used_blocks(e.second, &split);
		for (u64 b : s->second) if (!now.count(b)) n += BS;
	}
	return n;
}
static void check_tmp(const char *when) {
	for (auto &s : F->subs) for (auto &ip : s.second.inodes) if (ip.second.tmp) {
		u64 n = 0; for (auto &f : ip.second.fe) if (f.second.bytenr) n += f.second.len;
		n += ip.second.dirty.size() * BS;
		W->stats["tmp_idle_bytes"] = std::max(W->stats["tmp_idle_bytes"], n);
		if (n > 0 && !W->had_data_fault) violate("P17", "tmp-idle", "%s: an idle temporary file holds %llu bytes of data", when, (unsigned long long)n);
	}
	u64 orphan = 0;
	for (auto &e : F->ext) {
		bool user = false;
		for (auto &r : e.second.refs) { Inode *i = fs_inode(std::get<0>(r), std::get<1>(r)); if (i && !i->tmp) user = true; }
		if (!user) orphan += e.second.disk_len;
	}
	if (orphan && !W->had_data_fault) violate("P05", "orphan", "%s: %llu bytes are allocated and referenced only by temporary files of bees", when, (unsigned long long)orphan);
}
static void check_fds(const char *when) {
	u64 lim = W->cfgu("fd_hold_s", 3 * 3600) * SEC;
	u64 live = 0;
	for (auto &s : F->subs) live += s.second.inodes.size() + 1;
	for (auto &f : W->fds) {
		if (f.second.kind != OF_FS) continue;
		Inode *i = fs_inode(f.second.root, f.second.ino);
		Subvol *s = fs_sub(f.second.root);
		if (!i || i->tmp || f.second.root == 5) { if (i && i->tmp) continue; if (f.second.root == 5 && i && !i->deleted_at) continue; }
		if (!i || !s) continue;
		if (!W->refused.empty()) continue;      // waits for a send to end, with its files open
		u64 del = i->deleted_at;
		if (s->deleted) del = del ? std::min(del, s->deleted_at) : s->deleted_at;
		if (del && C->now > del + lim && C->now > W->inc_start + lim && !W->paused_since(del + lim / 2))
			violate("P16", s->deleted ? "subvol" : "file", "%s: a deleted %s is still held open %.0f s after its deletion", when, s->deleted ? "subvolume" : "file", (C->now - del) / 1e9);
	}
	if (W->fds.size() > live * 2 + W->cfgu("task_limit", 8) * 8 + 60) violate("P16", "leak", "%s: bees holds %zu descriptors with %llu inodes on the filesystem", when, W->fds.size(), (unsigned long long)live);
}
void quiet_checks(const char *phase) {
	wlog("quiet checks %s", phase);
	W->stats[std::string("quiet_") + phase]++;
	check_all_content(phase);
	if (W->cfgu("ck_scanned", 1)) check_scanned(phase);
	if (W->cfgu("ck_shared", 1)) check_shared(phase, "P03", 0);
	if (W->cfgu("ck_tmp", 1)) check_tmp(phase);
	check_fds(phase);
	if (!W->had_data_fault)
		for (auto &r : W->refused) {
			Inode *i = fs_inode(r.root, r.ino);
			if (!i || i->tmp || i->changed_at >= r.at) continue;
			// with the workaround on, a subvolume that is read-only by now is left alone
			Subvol *s = fs_sub(r.root);
			if (W->cfgu("send_workaround", 0) && (!s || s->ro || s->ro_changed >= r.at)) continue;
			violate("P13", "send-refusal-lost", "%s: a dedupe into %s+%#llx was refused %.0f s ago because of a send, the send has ended, and it was not tried again", phase, fs_path(r.root, r.ino).c_str(), (unsigned long long)r.off, (C->now - r.at) / 1e9);
			break;
		}
	if (!W->hash_fault_open) {
		HFile *f = hash_file(); const u8 *m = hash_mem();
		if (f && m && memcmp(m, f->data.data(), std::min<u64>(W->mmap_len, f->data.size()))) {
			std::string what = "an entry";
			std::vector<u8> mm(m, m + W->mmap_len);
			if (hash_missing(mm.data(), m, *f, std::min<u64>(W->mmap_len, f->data.size()), what))
				violate("P08", "idle", "%s: bees has been idle for hours and %s is not in the hash table file", phase, what.c_str());
		}
	}
}

// ====================================================================== events
static u64 next_timed_op() {
	u64 m = ~0ULL;
	for (; W->op_cursor < W->timed.size(); ++W->op_cursor) {
		Op &o = W->ops[W->timed[W->op_cursor]];
		if (o.done) continue;
		m = o.t; break;
	}
	return m;
}
static u64 next_event() {
	if (W->harness) return W->stop_now ? 0 : next_timed_op();
	u64 m = next_timed_op();
	m = std::min(m, W->next_check);
	if (F->dirty) m = std::min(m, W->next_commit);
	if (!W->home.pending.empty() || W->home_dirty()) m = std::min(m, W->next_home_sync);
	if (W->settle) m = std::min(m, W->settle_t);
	if (W->phase == 0) m = std::min(m, std::max(W->quiet_at, W->inc_start + 60 * SEC));
	if (W->stop_now) m = 0;
	return m;
}
static void final_stop() {
	W->phase = 4; W->phase_start = C->now;
	wlog("final stop");
	signal_bees(W->cfgu("final_int", 0) ? SIGINT : SIGTERM);
}
static void enter_probe();
// The extent scan mode and the others keep separate positions: a change between them starts over.
static bool same_scan_class() {
	int n = W->incs.size();
	if (n < 2 || W->inc < 1) return true;
	auto m = [&](int k) { auto &o = W->incs[std::min(k, n - 1)].o; auto i = o.find("m"); return i == o.end() || i->second == "4"; };
	return m(W->inc) == m(W->inc - 1);
}
static void advance_phase(const char *from) {
	(void)from;
	W->phase_start = C->now; W->last_activity = C->now;
	if (W->phase == 1 && W->cfgu("probe", 0)) { W->phase = 2; enter_probe(); return; }
	if (W->phase <= 2 && W->cfgu("restart", 0)) {
		W->phase = 3;
		W->idle_dedupes = 0;
		W->used_before = fs_used();
		W->rereads_before = W->stats["rereads"]; W->copies_before = W->copies; W->dedupes_before = W->dedupes;
		wlog("restart");
		signal_bees(SIGTERM);
		return;
	}
	if (W->phase == 3) {
		u64 re = W->stats["rereads"] - W->rereads_before, cp = W->copies - W->copies_before, de = W->dedupes - W->dedupes_before;
		u64 tot = W->stats["scan_total"];
		W->stats["restart_rereads"] += re; W->stats["restart_copies"] += cp; W->stats["restart_dedupes"] += de;
		if (W->cfgu("ck_restart", 1) && same_scan_class() && !W->had_data_fault) {
			if (cp) violate("P04", "restart-copy", "after a clean stop and restart on an idle filesystem bees made %llu writes to temporary copies again", (unsigned long long)cp);
			if (de) violate("P04", "restart-dedupe", "after a clean stop and restart on an idle filesystem bees did %llu dedupe operations again", (unsigned long long)de);
			if (tot > 40 && re > tot / 2) violate("P06", "restart-reread", "after a clean stop and restart on an idle filesystem bees read %llu of %llu blocks again", (unsigned long long)re, (unsigned long long)tot);
		}
	}
	final_stop();
}
static void enter_probe() {
	W->probe_time = C->now;
	// new duplicates: three equal new files and two copies of data that was there before
	u64 sub = W->subsym.count(W->cfgs("probe_sub", "")) ? W->subsym[W->cfgs("probe_sub", "")] : 5;
	Subvol *s = fs_sub(sub);
	if (!s || s->ro || s->deleted) sub = 5;
	auto mk = [&](const std::string &name, const std::vector<u32> &c) {
		u64 ino;
		if (fs_create(sub, 256, name, K_FILE, 0, &ino)) return;
		Inode &i = *fs_inode(sub, ino);
		for (u64 b = 0; b < c.size(); ++b) { fs_write_block(sub, i, b, c[b]); sh_set(i, b, c[b]); }
		i.shadow_size = c.size() * BS;
		fs_flush(sub, ino);
	};
	std::vector<u32> v;
	for (u32 x = 0; x < 12; ++x) v.push_back(30000000 + x);
	mk("probe_a", v); mk("probe_b", v);
	// a copy of an old file
	int made = 0;
	for (auto &sp : F->subs) {
		for (auto &ip : sp.second.inodes) {
			Inode &i = ip.second;
			if (!eligible(sp.second, i) || i.size < 8 * BS || i.size % BS || i.born >= W->probe_time) continue;
			bool plain = true; std::vector<u32> c;
			u64 n = i.size / BS;
			if (n > 64) continue;
			std::set<u32> uniq;
			for (u64 b = 0; b < n; ++b) { u32 x = fs_block(i, b); if (!x || !fs_phys(i, b)) plain = false; uniq.insert(x); c.push_back(x); }
			if (!plain || uniq.size() != n) continue;
			W->probe_src = { sp.first, i.ino };
			mk("probe_c", c); made = 1;
			break;
		}
		if (made) break;
	}
	W->had_user_change = true;
	wlog("probe created");
}
static void run_events() {
	SimScope ss;
	for (int guard = 0; guard < 10000; ++guard) {
		if (W->stop_now) { W->exit_kind = "violation"; raw_exit(0); }
		u64 now = C->now;
		u64 to = next_timed_op();
		if (to <= now) { Op &o = W->ops[W->timed[W->op_cursor]]; W->op_cursor++; world_op(o); continue; }
		if (W->harness) return;
		if (F->dirty && W->next_commit <= now) {
			W->next_commit = now + W->commit_interval;
			if (fs_commit()) {
				W->stats["commits"]++;
				if (W->home.inside || W->home.btrfs) {}
				if (W->keep_committed) { if (!W->committed) W->committed = new FS; *W->committed = *F; }
			}
			continue;
		}
		if (W->settle && W->settle_t <= now) {
			fs_commit();
			F->dirty = true; F->root_mod = F->transid; fs_commit();
			if (W->keep_committed) { if (!W->committed) W->committed = new FS; *W->committed = *F; }
			W->settle--; W->settle_t = now + 120 * SEC;
			continue;
		}
		if ((!W->home.pending.empty() || W->home_dirty()) && W->next_home_sync <= now) { W->next_home_sync = now + 30 * SEC; home_sync(); continue; }
		if (W->phase == 0 && std::max(W->quiet_at, W->inc_start + 60 * SEC) <= now) {
			W->phase = 1; W->phase_start = now; W->last_activity = now;
			W->fair = W->cfgu("faults_stop", 1);
			for (auto &s : F->subs) s.second.send = false;
			if (W->paused) signal_bees(SIGUSR2);
			if (W->loadavg > 0.5) { W->loadavg = 0.5; load_changed(); }
			wlog("quiet from now on");
			// everything is committed, and some time later an unrelated transaction is
			W->settle = 2; W->settle_t = now;
			continue;
		}
		if (W->next_check <= now) {
			W->next_check = now + W->cfgu("check_s", 600) * SEC;
			check_fds("periodic check");
			hash_periodic();
			if (W->state_fail_t && W->last_fault_t + 2 * HOUR < now && W->state_fail_t + 2 * HOUR < now && W->inc_start + 2 * HOUR < now) { violate("P07", "not-retried", "a failed save of the scan state was not retried for two hours"); W->state_fail_t = 0; }
			if (W->term_sent && !W->cfgu("no_term_bound", 0) && now > W->term_time + W->cfgu("term_bound_s", 900) * SEC) {
				if (g_verbose) { std::string s; for (Thr *t : *g_threads) if (t->state != T_DONE) wlog("  thread %d %s state %d wait %d where %s", t->id, t->name, t->state, t->wkind, t->where); }
				violate("P10", "stop-timeout", "bees is still running %.0f s after signal %d", (now - W->term_time) / 1e9, W->term_sig);
				W->exit_kind = "timeout"; raw_exit(0);
			}
			if (W->phase >= 1 && W->phase <= 3 && !W->term_sent) {
				if (now - W->last_activity > W->quiet_ns) {
					static const char *nm[] = { "active", "quiet", "probe", "restart", "stop" };
					quiet_checks(nm[W->phase]);
					if (W->cfgu("ck_space", 1) && W->phase <= 3 && !W->cfgu("send_workaround", 0) && !W->had_user_change && !W->had_fault && !W->had_unclean) {
						u64 u = fs_used();
						W->stats["space_before"] = W->used_at_start; W->stats["space_after"] = u;
						u64 loss = split_loss();
						if (u > W->used_at_start && u - W->used_at_start <= loss) violate("P05", "grew-split", "%s: data space grew from %llu to %llu bytes: bees has replaced a part of an extent that was already split, and other parts still keep all of it (%llu bytes) allocated", nm[W->phase], (unsigned long long)W->used_at_start, (unsigned long long)u, (unsigned long long)loss);
						else if (u > W->used_at_start) violate("P05", "grew", "%s: data space grew from %llu to %llu bytes although nobody else changed anything", nm[W->phase], (unsigned long long)W->used_at_start, (unsigned long long)u);
					}
					if (W->phase == 2) check_shared("probe", W->cfgs("probe_prop", "P12").c_str(), W->probe_time);
					advance_phase("quiet");
					continue;
				}
				if (now - W->phase_start > W->quiet_max) {
					violate("P04", "never-idle", "bees is still working %.1f hours after the last change of the filesystem (phase %d, %llu dedupe operations since)", (now - W->phase_start) / 3.6e12, W->phase, (unsigned long long)W->idle_dedupes);
					if (!W->stop_now) advance_phase("timeout");
				}
			}
			continue;
		}
		return;
	}
}
static void deadlock(const char *why) {
	SimScope ss;
	std::string w(why);
	if (g_verbose) for (Thr *t : *g_threads) if (t->state != T_DONE) wlog("  thread %d %s state %d wait %d obj %p where %s", t->id, t->name, t->state, t->wkind, t->wobj, t->where);
	if (w == "step cap") { W->stats["capped"]++; W->exit_kind = "capped"; raw_exit(0); }
	die_violation("deadlock", "deadlock: " + w);
	if (W->term_sent) violate("P10", "deadlock", "deadlock while stopping: %s", why);
	W->exit_kind = "deadlock";
	raw_exit(0);
}

[[noreturn]] void world_process_exit(int code, const char *kind) {
	++tl_insim;
	W->exit_code = code;
	wlog("process exit %d by %s", code, kind);
	ev_hash(0xe817, code);
	if (W->stop_now) { W->exit_kind = "violation"; raw_exit(0); }
	if (code == 0 && W->term_sent) {
		double d = (C->now - W->term_time) / 1e9;
		W->stats["stops"]++;
		W->stats["stop_ms_max"] = std::max<u64>(W->stats["stop_ms_max"], d * 1000);
		hash_compare_at_exit();
		W->exit_kind = "clean";
	} else {
		W->exit_kind = "died";
		std::string why = strf("bees ended by itself: %s(%d)", kind, code);
		if (W->startup_ok_to_fail) { W->stats["start_failed"]++; W->exit_kind = "start_failed"; }
		else {
			die_violation(strf("exit:%s", kind), why);
			if (W->term_sent) violate("P10", "bad-exit", "after the stop request bees ended by %s with status %d", kind, code);
		}
	}
	raw_exit(0);
}

static void on_terminate() {
	{
		SimScope ss;
		std::string what = "unknown";
		try { throw; } catch (const std::exception &e) { what = e.what(); } catch (...) {}
		wlog("std::terminate: %s", what.c_str());
		W->exit_what = what;
	}
	world_process_exit(136, "terminate");
}
static void on_signal(int s) {
	static bool again;
	if (again) raw_exit(3);
	again = true;
	++tl_insim;
	wlog("fatal signal %d", s);
	W->exit_kind = "died";
	ev_hash(0x519, s);
	die_violation(strf("signal:%d", s), strf("bees was killed by signal %d (%s)", s, strsignal(s)));
	if (W->term_sent) violate("P10", "signal", "bees was killed by signal %d while stopping", s);
	raw_exit(0);
}

// ====================================================================== plan
static std::vector<std::string> split(const std::string &s) {
	std::vector<std::string> v; size_t i = 0;
	while (i < s.size()) { while (i < s.size() && s[i] == ' ') ++i; size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j; }
	return v;
}
static int errno_by_name(const std::string &s) {
	static const struct { const char *n; int e; } T[] = { { "EIO", EIO }, { "ENOSPC", ENOSPC }, { "ENOMEM", ENOMEM }, { "ENOENT", ENOENT }, { "ESTALE", ESTALE }, { "EINTR", EINTR }, { "EAGAIN", EAGAIN }, { "EPERM", EPERM }, { "EINVAL", EINVAL }, { "EACCES", EACCES }, { "EBUSY", EBUSY }, { "ETXTBSY", ETXTBSY }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE }, { "EDQUOT", EDQUOT }, { "EROFS", EROFS }, { "EOPNOTSUPP", EOPNOTSUPP }, { "EXDEV", EXDEV }, { "ELOOP", ELOOP }, { "EFBIG", EFBIG }, { "ENOTTY", ENOTTY }, { "ENOSYS", ENOSYS } };
	for (auto &t : T) if (s == t.n) return t.e;
	return atoi(s.c_str());
}
static bool load_plan(const std::string &text, std::string &err) {
	size_t i = 0;
	while (i < text.size()) {
		size_t j = text.find('\n', i); if (j == std::string::npos) j = text.size();
		std::string line = text.substr(i, j - i); i = j + 1;
		if (line.empty() || line[0] == '#') continue;
		auto w = split(line);
		if (w.empty()) continue;
		if (w[0] == "cfg" && w.size() >= 3) W->cfg[w[1]] = w[2];
		else if (w[0] == "sched" && w.size() >= 3) {
			SchedCfg &c = C->cfg; const std::string &k = w[1]; const char *v = w[2].c_str();
			if (k == "seed") c.seed = strtoull(v, 0, 0); else if (k == "policy") c.policy = atoi(v); else if (k == "p_sync") c.p_sync = atof(v);
			else if (k == "bb_mean") c.bb_mean = atoi(v); else if (k == "win_lo") c.win_lo = strtoull(v, 0, 0); else if (k == "win_hi") c.win_hi = strtoull(v, 0, 0);
			else if (k == "p_spurious") c.p_spurious = atof(v); else if (k == "calm_after") c.calm_after = strtoull(v, 0, 0) * MS;
			else { err = "bad sched " + line; return false; }
		} else if (w[0] == "inc") {
			IncCfg c;
			for (size_t k = 1; k < w.size(); ++k) { size_t e = w[k].find('='); if (e != std::string::npos) c.o[w[k].substr(0, e)] = w[k].substr(e + 1); }
			W->incs.push_back(c);
		} else if (w[0] == "op" && w.size() >= 3) {
			Op o; o.raw = line.substr(3);
			std::string wh = w[1];
			o.w.assign(w.begin() + 2, w.end());
			static const std::set<std::string> notuser = { "sig", "load", "wall", "crash", "commit", "homesync", "slow", "send" };
			o.user = !notuser.count(o.w[0]);
			if (wh == "init") o.init = true;
			else if (wh.compare(0, 2, "t:") == 0) o.t = strtoull(wh.c_str() + 2, 0, 0) * MS;
			else if (wh.compare(0, 2, "s:") == 0) {
				std::string r = wh.substr(2); size_t c = r.find(':');
				std::string sn = r.substr(0, c);
				for (int s = 0; s < S_N; ++s) if (sn == site_name[s]) o.site = s;
				if (o.site < 0) { err = "bad site in " + line; return false; }
				o.nth = strtoull(r.c_str() + c + 1, 0, 0);
				o.after = r.find(":a", c + 1) != std::string::npos;
				W->siteops[o.site].push_back(W->ops.size());
			} else { err = "bad op " + line; return false; }
			W->ops.push_back(o);
		} else if (w[0] == "fault") {
			FaultRule r{}; r.site = -1; r.hi = ~0ULL; r.max = ~0ULL; r.p = 1; r.err = EIO; r.kind = "EIO";
			for (size_t k = 1; k < w.size(); ++k) {
				size_t e = w[k].find('='); if (e == std::string::npos) continue;
				std::string a = w[k].substr(0, e), b = w[k].substr(e + 1);
				if (a == "site") { for (int s = 0; s < S_N; ++s) if (b == site_name[s]) r.site = s; }
				else if (a == "p") r.p = atof(b.c_str());
				else if (a == "err") { r.kind = b; r.err = errno_by_name(b); }
				else if (a == "kind") { r.kind = b; if (b == "short" || b == "empty") r.err = 0; }
				else if (a == "lo") r.lo = strtoull(b.c_str(), 0, 0); else if (a == "hi") r.hi = strtoull(b.c_str(), 0, 0);
				else if (a == "max") r.max = strtoull(b.c_str(), 0, 0); else if (a == "seed") r.seed = strtoull(b.c_str(), 0, 0);
			}
			if (r.site < 0) { err = "bad fault " + line; return false; }
			W->faults.push_back(r);
		} else if (w[0] == "hop" && w.size() >= 3) {
			HOp h; h.who = w[1]; h.w.assign(w.begin() + 2, w.end()); W->hops.push_back(h);
		} else if (w[0] == "only") { for (size_t k = 1; k < w.size(); ++k) W->only.insert(w[k]); }
		else { err = "bad line " + line; return false; }
	}
	for (size_t k = 0; k < W->ops.size(); ++k) if (W->ops[k].t != ~0ULL) W->timed.push_back(k);
	std::stable_sort(W->timed.begin(), W->timed.end(), [](u64 a, u64 b) { return W->ops[a].t < W->ops[b].t; });
	return true;
}

static void init_home() {
	Home &h = W->home;
	h.btrfs = W->cfgu("home_btrfs", 0); h.inside = W->cfgu("home_inside", 0);
	if (h.inside) h.btrfs = true;
	u64 hs = W->cfgu("hash_size", 262144);
	if (!W->cfgu("no_hash", 0)) {
		u64 id = h.next_id++;
		HFile &f = h.files[id];
		f.id = id; f.name0 = "beeshash.dat"; f.data.assign(hs, 0);
		std::string mode = W->cfgs("hash_init", "zero");
		Rng r; r.seed(W->cfgu("seed", 1) ^ 0x4a54);
		u64 *p = reinterpret_cast<u64 *>(f.data.data()); u64 n = hs / 8;
		if (mode == "random") for (u64 k = 0; k < n; ++k) p[k] = r.next();
		else if (mode == "sparse") { for (u64 k = 0; k < n; ++k) if (r.chance(0.05)) p[k] = r.next() >> r.below(64); }
		else if (mode == "dup") { for (u64 k = 0; k < n; k += 2) { p[k] = r.below(50); p[k + 1] = r.below(1 << 20) * 4096 + r.below(16); } }
		else if (mode == "evil") W->hash_evil = true;
		f.durable = f.data; f.durable_size = f.data.size(); f.synced_once = true;
		h.names["beeshash.dat"] = id; h.dnames = h.names;
	}
}
// entries with the right hashes and wrong addresses
static void evil_hash() {
	HFile *f = hash_file();
	if (!f) return;
	Rng r; r.seed(W->cfgu("seed", 1) ^ 0xe51);
	std::vector<u64> addrs, hashes; u8 b[BS];
	for (auto &e : F->ext) for (u64 k = 0; k < e.second.cids.size(); ++k) {
		content_expand(e.second.cids[k], b);
		hashes.push_back(sim_crc64(b, BS)); addrs.push_back(e.first + k * BS);
	}
	if (hashes.empty()) return;
	for (auto &c : F->chunks) addrs.push_back(c.start);
	u64 nb = f->data.size() / 4096;
	for (u64 k = 0; k < W->cfgu("evil_n", 400); ++k) {
		u64 h = hashes[r.below(hashes.size())];
		u64 a;
		switch (r.below(7)) {
		case 0: a = addrs[r.below(addrs.size())]; break;
		case 1: a = addrs[r.below(addrs.size())] + r.below(16) * 4096; break;
		case 2: a = addrs[r.below(addrs.size())] | (1 + r.below(0xfff)); break;      // flag bits and block numbers of compressed extents
		case 3: a = r.next(); break;
		case 4: a = r.below(64); break;
		case 5: a = ~0ULL - r.below(100000); break;
		default: a = (addrs[r.below(addrs.size())] & ~0xfffULL) | 0x200 | 0x100 * r.below(2); break;
		}
		u64 *bk = reinterpret_cast<u64 *>(f->data.data() + (h % nb) * 4096);
		u64 slot = r.below(256);
		bk[slot * 2] = h; bk[slot * 2 + 1] = a;
		W->evil.insert({ h, a & ~0xfffULL });
		if (a & 0xdff) W->evil.insert({ h, 1 });      // flag bits of no real entry
	}
	f->durable = f->data;
}

static u64 open_count(u64 r, u64 i) { auto x = W->opens.find({ r, i }); return x == W->opens.end() ? 0 : x->second; }
static u64 open_count_sub(u64 r) { for (auto &x : W->opens) if (x.first.first == r) return 1; return 0; }

static void set_limits() {
	// number of workers bees may use with these options
	std::string c = W->inco("c", ""), Cf = W->inco("C", "");
	u64 n;
	if (!c.empty() && atoi(c.c_str()) > 0) n = atoi(c.c_str());
	else { double f = Cf.empty() ? 1.0 : atof(Cf.c_str()); if (f == 0) f = 1.0; double x = world_ncpu() * f; n = static_cast<u64>(x); if (n < x) ++n; if (n < 1) n = 1; }
	// the minimum wins when it is larger
	u64 g = atoi(W->inco("G", "0").c_str());
	W->cfg["task_limit"] = strf("%llu", (unsigned long long)(W->inco("g", "").empty() || W->inco("g", "") == "0" ? n : std::max(n, g)));
	W->cfg["tmp_limit"] = strf("%llu", (unsigned long long)(n + 2));
	W->cfg["send_workaround"] = W->inco("a", "") == "1" ? "1" : "0";
	W->cfg["nofile_now"] = "1024";
}

static void child_main() {
	std::vector<std::string> a = { "bees" };
	auto add = [&](const char *k, const char *opt) { std::string v = W->inco(k, ""); if (!v.empty()) { a.push_back(opt); a.push_back(v); } };
	{
		SimScope ss;
		add("m", "-m"); add("c", "-c"); add("C", "-C"); add("g", "-g"); add("G", "-G"); add("v", "-v"); add("throttle", "--throttle-factor");
		if (W->inco("a", "") == "1") a.push_back("-a");
		if (W->inco("P", "") == "1") a.push_back("-P");
		a.push_back("/simroot");
	}
	std::vector<char *> av;
	std::vector<std::string> copy(a.begin(), a.end());
	for (auto &s : copy) av.push_back(strdup(s.c_str()));
	av.push_back(nullptr);
	std::string h = W->cfgs("harness", "");
	if (W->harness) { int rv = harness_main(h); SimScope ss; W->exit_code = rv; W->exit_kind = "harness"; raw_exit(0); }
	int rv = bees_real_main(av.size() - 1, av.data());
	world_process_exit(rv, "return from main");
}

static void json_str(std::string &o, const std::string &s) {
	o += '"';
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += strf("\\u%04x", c); else o += c; }
	o += '"';
}

static int read_all(int fd, std::string &out) {
	char b[65536];
	for (;;) { long n = raw_syscall6(SYS_read, fd, reinterpret_cast<long>(b), sizeof b, 0, 0, 0); if (n < 0) return -1; if (!n) return 0; out.append(b, n); }
}

int main(int argc, char **argv, char **envp) {
	(void)argv; (void)envp;
	// the address space must be the same in every run
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
		char *av[] = { const_cast<char *>("simbees"), argc > 1 ? const_cast<char *>("v") : nullptr, nullptr };
		char *ev[] = { const_cast<char *>("TZ=UTC0"), const_cast<char *>("LC_ALL=C"), nullptr };
		raw_syscall6(SYS_execve, reinterpret_cast<long>("/proc/self/exe"), reinterpret_cast<long>(av), reinterpret_cast<long>(ev), 0, 0, 0);
		// without the privilege the run still works, replays may differ in addresses
	}
	g_verbose = argc > 1;
	arena_init();
	++tl_insim;
	C = new CoreState;
	g_cov = static_cast<u8 *>(calloc(65536, 1));
	C->switch_pairs = new std::set<u64>;
	W = new World; g_fs = new FS; F = g_fs;
	std::string text, err;
	read_all(0, text);
	if (!load_plan(text, err)) { std::string m = "{\"error\":"; json_str(m, err); m += "}\n"; raw_write(1, m.data(), m.size()); raw_exit(2); }
	W->harness = !W->cfgs("harness", "").empty();
	u64 seed = W->cfgu("seed", 1);
	C->rng.seed(C->cfg.seed); W->wrng.seed(seed * 3 + 1); W->erng.seed(seed * 5 + 2);
	fs_rng = &W->wrng;
	fs_open_count = open_count; fs_open_count_sub = open_count_sub;
	C->step_cap = W->cfgu("step_cap", 200000000); C->bb_cap = W->cfgu("bb_cap", 20000000000);
	FsCfg fc;
	fc.max_extent = W->cfgu("max_extent", 1 << 20); fc.no_holes = W->cfgu("no_holes", 1); fc.inline_ok = W->cfgu("inline_ok", 1); fc.reuse = W->cfgu("reuse", 1);
	fc.leaf_shift = W->cfgu("leaf_shift", 2); fc.dedupe_max = W->cfgu("dedupe_max", 16 << 20); fc.root_dirty_transid = W->cfgu("root_dirty", 1); fc.chunk_size = W->cfgu("chunk_mb", 64) << 20;
	fs_init(fc);
	F->transid = W->cfgu("transid", 10); F->last_commit = F->transid - 1;
	W->subsym["root"] = 5;
	W->commit_interval = W->cfgu("commit_s", 30) * SEC;
	W->quiet_at = W->cfgu("quiet_at", 60000) * MS;
	W->quiet_ns = W->cfgu("quiet_s", 3 * 3600) * SEC;
	W->quiet_max = W->cfgu("quiet_max_s", 72 * 3600) * SEC;
	W->keep_committed = W->cfgu("keep_committed", 0);
	fs_gone = remember_gone;
	W->loadavg = W->cfgd("load", 0.5);
	W->next_check = 600 * SEC;
	init_home();
	for (auto &o : W->ops) if (o.init) world_op(o);
	fs_commit();
	if (W->keep_committed) { W->committed = new FS; *W->committed = *F; }
	if (W->hash_evil) evil_hash();
	W->used_at_start = fs_used(); note_split();
	world_next_event = next_event; world_run_events = run_events; world_deadlock = deadlock;
	std::set_terminate(on_terminate);
	for (auto &o : W->ops) if (!o.init && o.user) W->had_user_change = true;
	std::string outcome;
	u64 max_inc = W->cfgu("max_inc", 12);
	W->read_ms = W->cfgu("read_ms", 0);
	W->order_on = W->cfgu("order", 0);
	W->throttle_on = W->cfgu("throttle", 0);
	if (W->throttle_on) core_on_sleep = throttle_sleep;
	for (u64 n = 0;; ++n) {
		if (n >= max_inc) { outcome = "max_inc"; break; }
		W->inc = n; W->incs_run = n + 1; W->inc_start = C->now; W->refused.clear(); W->thr_read.clear();
		W->exit_kind = ""; W->exit_code = -1000; W->term_sent = false; W->sigq.clear(); W->paused = false; W->mmap_addr = 0; W->hash_at_term.clear(); W->hash_prev.clear(); W->hash_ext_read.clear();
		W->in_logino = W->in_dedupe = W->in_data = 0; W->state_fail_t = 0;
		W->last_activity = C->now;
		if (W->phase == 3) W->phase_start = C->now;
		set_limits();
		W->setup_done = 0; W->startup_ok_to_fail = false; W->load_high_since = 0; load_changed();
		wlog("incarnation %llu starts", (unsigned long long)n);
		long pid = raw_syscall6(SYS_fork, 0, 0, 0, 0, 0, 0);
		for (int i = 0; pid < 0 && i < 600; ++i) {      // the real machine is short of processes: wait
			struct timespec ts = { 0, 100000000 };
			raw_syscall6(SYS_nanosleep, reinterpret_cast<long>(&ts), 0, 0, 0, 0, 0);
			pid = raw_syscall6(SYS_fork, 0, 0, 0, 0, 0, 0);
		}
		if (pid < 0) { outcome = "killed"; break; }
		if (pid == 0) {
			in_child = true;
			for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(s, &sa, nullptr); }
			raw_syscall6(SYS_alarm, W->cfgu("real_timeout", 120), 0, 0, 0, 0, 0);
			tl_insim = 0;
			core_start(child_main);
			raw_exit(4);
		}
		int st = 0;
		while (raw_syscall6(SYS_wait4, pid, reinterpret_cast<long>(&st), 0, 0, 0, 0) == -EINTR) {}
		g_active = false;
		bool sig = WIFSIGNALED(st);
		if (sig || W->exit_kind.empty()) {
			if (sig && WTERMSIG(st) == SIGALRM) { outcome = "real_timeout"; W->stats["real_timeout"]++; break; }
			if ((sig && WTERMSIG(st) == SIGKILL) || (!sig && WEXITSTATUS(st) == 97)) { outcome = "killed"; break; }
			W->exit_kind = "died";
			die_violation(strf("signal:%d", sig ? WTERMSIG(st) : -WEXITSTATUS(st)), strf("bees was killed by signal %d", sig ? WTERMSIG(st) : 0));
		}
		std::string k = W->exit_kind;
		ev_hash(0x1ca, W->exit_code);
		close_all_fds();
		if (k == "violation" || k == "deadlock" || k == "capped" || k == "timeout" || k == "harness") { outcome = k; break; }
		if (k == "died") {
			outcome = k;
			check_all_content("death of bees");
			break;
		}
		if (W->stop_now) { outcome = "violation"; break; }
		check_all_content("stop");
		if (k == "machine") {
			if (W->committed) { for (auto &x : F->ext) remember_gone(x.second); *F = *W->committed; for (auto &s : F->subs) { std::vector<u64> del; for (auto &i : s.second.inodes) if (i.second.tmp || (i.second.links.empty() && i.first != 256)) del.push_back(i.first); for (u64 d : del) { if (Inode *x = fs_inode(s.first, d)) x->links.clear(); fs_release_inode(s.first, d); } } }
			home_crash(true);
			W->had_unclean = true; W->had_crash = true;
			check_all_content("crash");
		}
		if (k == "kill") { W->had_unclean = true; W->had_crash = true; }
		// the scan position is saved every fifteen minutes, and at a clean stop
		if (W->read_ms) {
			bool all = true;
			for (auto &x : F->ext) { auto r = W->ext_read.find(x.second.uid); if (plain_refs(x.second) && (r == W->ext_read.end() || r->second.blocks.size() < x.second.cids.size())) { all = false; break; } }
			if (all) W->first_pass_done = true;        // the next pass may look at anything again
			u64 until = k == "clean" ? W->term_time : C->now - 900 * SEC;
			auto finished = [&](const Extent &e) {
				auto r = W->ext_read.find(e.uid);
				return r != W->ext_read.end() && r->second.blocks.size() >= e.cids.size() && r->second.last + W->repeat_slack() < until;
			};
			for (auto &x : F->ext) { if (plain_refs(x.second) && !finished(x.second)) break; W->done_ext[n] = x.first + 1; }
			for (auto &s : F->subs) for (auto &ip : s.second.inodes) {
				bool done = true;
				for (u64 b = 0; b < (ip.second.size + BS - 1) / BS && done; ++b) { u64 p = fs_phys(ip.second, b, nullptr); if (p) done = finished(F->ext[p]); }
				if (!done) break;
				W->done_ino[{n, s.first}] = ip.first;
			}
		}
		if (k == "clean") W->saved_until[n] = W->term_time;
		else if ((k == "kill" || k == "machine") && C->now > W->inc_start + 900 * SEC) W->saved_until[n] = C->now - 900 * SEC;
		if (k == "kill" || k == "machine") W->known_since = C->now;
		if (k == "clean" && W->phase == 4) { outcome = "done"; break; }
		if (k == "start_failed") { if (n + 1 >= max_inc) { outcome = "start_failed"; break; } }
		// time passes while bees is down
		u64 down = strtoull(W->inco("down_ms", "1000").c_str(), 0, 0) * MS;
		u64 until = C->now + down;
		while (next_timed_op() <= until) { Op &o = W->ops[W->timed[W->op_cursor++]]; C->now = std::max(C->now, o.t); world_op(o); }
		C->now = std::max(C->now, until);
		W->had_restart = true;
		W->thr_last.clear(); W->thr_sum.clear(); W->passed_over.clear(); W->passed_fresh.clear(); W->order_last = {};
		C->pct_changes = 0;
		W->next_check = C->now + 600 * SEC;
	}
	check_all_content("end of run");
	// ------------------------------------------------ report
	std::string o = "{";
	o += strf("\"outcome\":\"%s\",\"hash\":\"%016llx\",\"sim_ns\":%llu,\"steps\":%llu,\"switches\":%llu,\"bbs\":%llu,\"syscalls\":%llu,\"preempts\":%llu,\"spurious\":%llu,\"threads\":%llu,\"incs\":%llu,", outcome.c_str(), (unsigned long long)C->hash, (unsigned long long)C->now, (unsigned long long)C->steps, (unsigned long long)C->switches, (unsigned long long)C->bbs, (unsigned long long)C->syscalls, (unsigned long long)C->preempts, (unsigned long long)C->spurious, (unsigned long long)C->max_threads, (unsigned long long)W->incs_run);
	u64 cov = 0; for (int k = 0; k < 65536; ++k) cov += g_cov[k];
	o += strf("\"cov\":%llu,\"pairs\":%zu,\"phase\":%d,\"dedupes\":%llu,\"copies\":%llu,\"max_tmp\":%llu,\"max_fds\":%llu,\"max_inflight\":%llu,\"state_saves\":%llu,\"hash_writes\":%llu,\"used\":%llu,\"commits\":%llu,", (unsigned long long)cov, C->switch_pairs->size(), W->phase, (unsigned long long)W->dedupes, (unsigned long long)W->copies, (unsigned long long)W->max_tmp, (unsigned long long)W->max_fds, (unsigned long long)W->max_inflight, (unsigned long long)W->state_saves, (unsigned long long)W->hash_writes, (unsigned long long)fs_used(), (unsigned long long)F->ncommits);
	o += "\"model_error\":"; json_str(o, W->model_error); o += ",\"what\":"; json_str(o, W->exit_what);
	o += ",\"stats\":{"; bool first = true;
	for (auto &x : W->stats) { if (!first) o += ','; first = false; json_str(o, x.first); o += strf(":%llu", (unsigned long long)x.second); }
	o += "},\"faults\":{"; first = true;
	for (auto &x : W->fault_fired) { if (!first) o += ','; first = false; json_str(o, x.first); o += strf(":%llu", (unsigned long long)x.second); }
	o += "},\"sites\":{"; first = true;
	for (int k = 0; k < S_N; ++k) if (W->site_count[k]) { if (!first) o += ','; first = false; json_str(o, site_name[k]); o += strf(":%llu", (unsigned long long)W->site_count[k]); }
	o += "},\"violations\":["; first = true;
	for (auto &v : W->violations) {
		if (!first) o += ',';
		first = false;
		o += "{\"prop\":"; json_str(o, v.prop); o += ",\"key\":"; json_str(o, v.key); o += ",\"msg\":"; json_str(o, v.msg); o += strf(",\"t\":%.6f,\"step\":%llu,\"inc\":%d}", v.t / 1e9, (unsigned long long)v.step, v.inc);
	}
	o += "]";
	if (W->cfgu("dump_pairs", 0)) { o += ",\"pairset\":["; first = true; u64 n = 0; for (u64 x : *C->switch_pairs) { if (!first) o += ','; first = false; o += strf("%llu", (unsigned long long)(x & 0xffffffff)); if (++n > 20000) break; } o += "]"; }
	if (W->cfgu("dump_cov", 0)) { o += ",\"covmap\":\""; for (int k = 0; k < 65536; k += 8) { int b = 0; for (int j = 0; j < 8; ++j) b |= g_cov[k + j] << j; o += strf("%02x", b); } o += "\""; }
	o += "}\n";
	raw_write(1, o.data(), o.size());
	raw_exit(0);
}
