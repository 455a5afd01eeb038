// The simulated world around bees: plan, faults, descriptors, state directory, oracles.
#pragma once
#include "core.h"
#include "fs.h"
#include <string>
#include <vector>
#include <list>
#include <tuple>
#include <map>
#include <set>

enum Site {
	S_OPEN_FILE, S_OPEN_ROOT, S_OPEN_TMP, S_OPEN_HOME, S_PREAD, S_PREAD_TMP, S_PREAD_HASH, S_READ_HOME, S_PWRITE_TMP, S_PWRITE_HASH,
	S_WRITE_STATE, S_FSYNC, S_RENAME, S_UNLINK, S_FTRUNC_TMP, S_FTRUNC_HOME, S_FSTAT, S_FSTATFS, S_SEARCH_ROOT, S_SEARCH_EXTENT,
	S_SEARCH_CHUNK, S_SEARCH_SUB, S_LOGINO, S_INOPATHS, S_INOLOOKUP, S_DEDUPE, S_GETFLAGS, S_SETFLAGS, S_READAHEAD, S_GETRUSAGE,
	S_MMAP, S_FSINFO, S_CLOSE, S_MISC, S_CLONE, S_N
};
extern const char *site_name[S_N];

struct FaultRule { int site; double p; int err; u64 lo, hi; u64 max; u64 seed; u64 fired; std::string kind; };
struct Op { std::string raw; std::vector<std::string> w; u64 t = ~0ULL; int site = -1; u64 nth = 0; bool after = false; bool done = false; bool init = false; bool user = true; };

struct HOp { std::string who; std::vector<std::string> w; };    // a step of a client of a library class

struct OpenFile { int kind = 0; u64 root = 0, ino = 0; int flags = 0; u64 pos = 0; u64 hid = 0; u64 since = 0; bool closed_hash = false; };
enum { OF_NONE, OF_FS, OF_HOMEDIR, OF_HOMEFILE };

struct HFile {
	u64 id = 0; std::string name0;
	std::vector<u8> data, durable;
	u64 durable_size = 0; bool size_dirty = false; std::set<u64> dirty_pages;
	bool synced_once = false;
	u64 intended = 0;          // bytes bees wanted the file to have
	bool orderly = false;      // btrfs: flushed before the rename that put it in place can be committed
};
struct DirOp { int kind; std::string a, b; u64 id; };   // 0 create a, 1 rename a->b, 2 unlink a
struct Home {
	bool btrfs = false, inside = false;
	std::map<std::string, u64> names, dnames;
	std::vector<DirOp> pending;
	std::map<u64, HFile> files;
	u64 next_id = 1000;
	std::vector<std::string> state_versions;   // complete contents of beescrawl.dat that were put in place
	bool state_durable = false;                // some version is guaranteed to survive
};

struct Violation { std::string prop, key, msg; u64 t, step; int inc; };

struct IncCfg { std::map<std::string, std::string> o; };

// a dedupe operation that was refused because the destination is being sent
struct Refused { u64 root, ino, off, len, at; };
struct World {
	// plan
	std::map<std::string, std::string> cfg;
	std::vector<IncCfg> incs;
	std::vector<Op> ops;
	std::vector<HOp> hops;
	bool harness = false;
	u64 table_id = 0, table_size = 0;     // the hash table file in the state directory
	std::vector<FaultRule> faults;
	std::set<std::string> only;           // properties whose violations are reported (empty: all)
	// run state
	int inc = 0;
	Rng wrng;                              // world choices (durations, allocation, entropy)
	Rng erng;                              // entropy handed to bees
	std::vector<Violation> violations;
	std::map<std::string, u64> stats;
	u64 site_count[S_N] = {0};
	u64 fault_count[S_N] = {0};
	std::map<std::string, u64> fault_fired;
	std::vector<u64> siteops[S_N];         // indexes of ops triggered by a site
	std::map<std::string, u64> subsym, filesym;   // symbolic names
	std::map<std::string, std::string> filehome;  // file symbol -> subvolume symbol
	std::map<std::string, u64> dirsym;
	Home home;
	std::map<int, OpenFile> fds;
	std::map<std::pair<u64, u64>, u64> opens;     // open counts per inode
	FS *committed = nullptr;
	bool keep_committed = false;
	u64 next_commit = 0, commit_interval = 30 * SEC;
	u64 next_home_sync = 0;
	std::vector<int> sigq;
	bool term_sent = false; u64 term_time = 0; int term_sig = 0; u64 term_steps = 0;
	bool paused = false; u64 pause_time = 0; u64 pause_ops = 0;
	double loadavg = 0.5;
	// phases
	int settle = 0; u64 settle_t = 0;
	int phase = 0;          // 0 active, 1 waiting for quiet, 2 probe quiet, 3 restart quiet, 4 final stop
	u64 quiet_at = 0, quiet_ns = 3 * HOUR, quiet_max = 72 * HOUR, phase_start = 0;
	u64 last_activity = 0, last_progress = 0;
	u64 next_check = 0;
	u64 used_before = 0, used_at_start = 0; bool had_user_change = false; bool had_fault = false, had_data_fault = false; u64 load_high_since = 0, load_settle = 0, load_min = 0; double load_over = 0; bool had_crash = false; bool had_restart = false; bool had_pause = false; bool had_unclean = false;
	u64 dedupes = 0, dedupe_bytes = 0, copies = 0;
	std::list<Refused> refused;
	std::map<std::tuple<int, u64, u64, u64>, u64> thr_read;   // when a thread first read a block
	int in_logino = 0, in_dedupe = 0, in_data = 0;
	u64 mmap_addr = 0, mmap_len = 0;
	std::set<u64> hash_ext_read;
	std::vector<u8> hash_at_term;
	int exit_code = -1000; std::string exit_kind;
	std::map<std::string, u64> probes;
	bool finished = false;
	bool fair = false;
	u64 idle_dedupes = 0;
	std::set<std::pair<u64, u64>> diff_inodes;   // inodes changed by users (for DIFFERS analysis)
	std::map<std::string, std::vector<std::string>> probe_files;
	struct ExtRead { u64 first = ~0ULL, last = 0; std::set<u64> blocks; u64 inc = 0; bool again = false; };
	std::map<u64, u64> saved_until;       // incarnation -> when its scan position was last due to be saved
	std::map<std::pair<u64, u64>, u64> done_ino; std::map<u64, u64> done_ext; bool first_pass_done = false;
	struct ThrOp { int kind = -1; u64 dur = 0, slept = 0, t0 = 0, slept_at = 0; bool sleeping = false; };
	struct ThrSum { u64 n = 0, used = 0, longest = 0; };
	bool throttle_on = false; u64 op_time_n = 0, throttle_sleeps = 0, throttle_starts = 0, throttle_overlap = 0; std::map<u64, ThrOp> thr_last; std::map<int, ThrSum> thr_sum;
	bool order_on = false; u64 order_bad = 0; std::pair<u64, u64> order_last; std::map<u64, u64> passed_over, passed_fresh, root_done, root_clean;
	u64 repeat_slack() { return read_ms * 1000000ull * cfgu("repeat_blocks", 400) + cfgu("repeat_base_s", 600) * 1000000000ull; }
	u64 repeats = 0, read_ms = 0; std::string repeat_ex;
	std::map<u64, std::set<u64>> split0;  // extents (by uid) of which files had only parts at the start
	std::map<u64, ExtRead> ext_read;      // what bees has read of each extent (by uid), and when
	u64 inc_start = 0; u64 incs_run = 0;
	u64 max_tmp = 0, max_fds = 0, max_inflight = 0;
	u64 threads = 0;
	std::string log;
	u64 sim_end = 0;
	bool send_used = false;
	bool stop_now = false; std::string model_error, exit_what;
	u64 state_fail_t = 0, resume_time = 0, load_time = 0, probe_time = ~0ULL;
	std::vector<u64> terms;      // times of stop requests
	std::vector<u64> timed; u64 op_cursor = 0;
	std::vector<u8> hash_prev; u64 hash_prev_t = 0;
	std::set<std::pair<u64, u64>> unreadable, evil;
	u64 rereads_before = 0, copies_before = 0, dedupes_before = 0;
	bool hash_evil = false, startup_ok_to_fail = false;
	std::pair<u64, u64> probe_src;
	u64 hash_fault_t = 0;
	bool hash_fault_open = false;          // a write of the table failed, and it has not been in agreement with the file since
	bool paused_since(u64) const { return paused || (resume_time && C->now < resume_time + 3 * HOUR); }
	bool home_dirty() const { for (auto &f : home.files) if (f.second.size_dirty || !f.second.dirty_pages.empty()) return true; return false; }
	u64 known_since = 0;        // time of the last crash
	u64 user_changes = 0, last_user_change = 0;
	std::set<u32> slow_cids;
	std::set<std::pair<u64, u32>> gone;     // what was once stored where, the table may still have it
	std::set<u64> cur_tmp;      // inodes
	std::string last_state;     // last complete beescrawl.dat
	u64 state_saves = 0;
	u64 hash_writes = 0;
	u64 setup_done = 0;
	u64 last_fault_t = 0;
	bool stop_fail_ok = false;
	u64 cfgu(const char *k, u64 d) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtoull(i->second.c_str(), nullptr, 0); }
	double cfgd(const char *k, double d) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtod(i->second.c_str(), nullptr); }
	std::string cfgs(const char *k, const char *d) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
	std::string inco(const char *k, const char *d) const { if (incs.empty()) return d; const IncCfg &c = incs[std::min<size_t>(inc, incs.size() - 1)]; auto i = c.o.find(k); return i == c.o.end() ? d : i->second; }
};
extern World *W;
extern int g_verbose;

void violate(const char *prop, const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void wlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void world_site(int site, bool after);      // count an occurrence, run triggered operations
void world_op(Op &op);
[[noreturn]] void world_process_exit(int code, const char *kind);
void check_content(const char *when, u64 root, u64 ino);
void check_all_content(const char *when);
void home_check(const char *when);
void home_crash(bool machine);
void home_commit_dir();
void home_state_placed(HFile &h);
void close_all_fds();
void hash_compare_at_exit();
void hash_erased(u64 off, u64 n);
void world_activity();
void quiet_checks(const char *phase);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mark_scanned(u64 root, u64 ino, u64 off, u64 len);
void shadow_write(u64 root, u64 ino, u64 off, const u8 *p, u64 len);
void throttle_start(int kind);
void throttle_done(int kind, u64 dur);
void throttle_settle();
