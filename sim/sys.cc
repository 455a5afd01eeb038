// System calls of bees, answered by the simulated kernel.
#include "world.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fs.h>
#include <linux/magic.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

#ifndef SYS_openat2
#define SYS_openat2 437
#endif
struct open_how_ { u64 flags, mode, resolve; };

const char *site_name[S_N] = {
	"open_file", "open_root", "open_tmp", "open_home", "pread", "pread_tmp", "pread_hash", "read_home", "pwrite_tmp", "pwrite_hash",
	"write_state", "fsync", "rename", "unlink", "ftrunc_tmp", "ftrunc_home", "fstat", "fstatfs", "search_root", "search_extent",
	"search_chunk", "search_sub", "logino", "inopaths", "inolookup", "dedupe", "getflags", "setflags", "readahead", "getrusage",
	"mmap", "fsinfo", "close", "misc", "clone"
};

static inline bool insim() { return g_active && !tl_insim && g_cur && W; }

// ------------------------------------------------------------------ latency
static u64 lat(int site, u64 base) {
	u64 n = W->site_count[site];
	u64 r = mix64(W->cfgu("seed", 1) * 7919 + site * 1000003 + n);
	u64 v = base / 2 + r % base;
	u64 r2 = mix64(r + 1);
	if (W->fair) return v;
	double slow = W->cfgd("p_slow", 0.01);
	if ((r2 & 0xffff) < slow * 65536) {
		v += (r2 >> 16) % (W->cfgu("slow_ms", 200) * MS + 1);
		W->stats["slow_calls"]++;
	}
	return v;
}
static void ksleep(int site, u64 base) { u64 n = lat(site, base); core_cost(n / 16 + 1, true); core_sleep(n, W_KERNEL); }

// ------------------------------------------------------------------ faults
struct Fault { int err = 0; const std::string *kind = nullptr; bool is(const char *k) const { return kind && *kind == k; } };
static Fault fault(int site) {
	Fault f;
	u64 n = W->fault_count[site]++;
	if (W->fair) return f;
	for (auto &r : W->faults) {
		if (r.site != site || n < r.lo || n >= r.hi || r.fired >= r.max) continue;
		double u = (mix64(r.seed * 1315423911ULL + n * 2654435761ULL + site) >> 11) * (1.0 / 9007199254740992.0);
		if (u >= r.p) continue;
		r.fired++;
		W->fault_fired[std::string(site_name[site]) + ":" + r.kind]++;
		W->had_fault = true;
		if (!(site == S_OPEN_HOME || site == S_PREAD_HASH || site == S_READ_HOME || site == S_PWRITE_HASH || site == S_WRITE_STATE || site == S_FSYNC || site == S_RENAME || site == S_UNLINK || site == S_FTRUNC_HOME)) W->had_data_fault = true;
		W->last_fault_t = C->now;
		if (!W->setup_done) W->startup_ok_to_fail = true;
		if (site == S_PWRITE_HASH || site == S_PREAD_HASH) { W->hash_fault_t = C->now; W->hash_fault_open = true; }
		f.err = r.err; f.kind = &r.kind;
		ev_hash(site + 77, n);
		wlog("fault %s %s n=%llu", site_name[site], r.kind.c_str(), (unsigned long long)n);
		return f;
	}
	return f;
}

struct Enter {
	int site; SimScope ss;
	Enter(int s, const char *name) : site(s) {
		C->syscalls++;
		g_cur->spin = 0;
		core_yield(name);
		W->site_count[site]++;
		ev_hash(site, g_cur->id);
		if (W->throttle_on && site != S_GETRUSAGE) throttle_settle();
		world_site(site, false);
	}
	~Enter() { world_site(site, true); }
};
// an operation whose time counts for --throttle-factor
struct Throttled {
	int kind; u64 t0 = C->now; bool done = true;
	explicit Throttled(int k) : kind(k) { if (W->throttle_on) throttle_start(kind); }
	~Throttled() { if (W->throttle_on && done) throttle_done(kind, C->now - t0); }
};
static void op_time(const char *key) {
	u64 ms = W->cfgu(key, 0);
	if (!ms) return;
	u64 r = mix64(W->cfgu("seed", 1) * 104729 + ++W->op_time_n);
	core_sleep((r % 100 < 15 ? ms / 10 + 1 : ms - ms / 10 + (r >> 8) % (ms / 5 + 1)) * MS, W_KERNEL);
}
static int fail(int e) { errno = e; return -1; }

static OpenFile *of(int fd) { auto i = W->fds.find(fd); return i == W->fds.end() ? nullptr : &i->second; }
static void badfd(int fd, const char *what) {
	if (fd >= 0) { W->stats["ebadf"]++; violate("P12", strf("ebadf:%s", what), "%s on descriptor %d which bees has closed", what, fd); }
}
static int new_fd(OpenFile o) {
	int fd = 3;
	for (auto &x : W->fds) { if (x.first == fd) ++fd; else break; }
	if (W->fds.size() + 3 >= W->cfgu("nofile_now", 1024)) { return fail(EMFILE); }
	o.since = C->now;
	W->fds[fd] = o;
	if (o.kind == OF_FS) W->opens[{ o.root, o.ino }]++;
	if (W->fds.size() > W->max_fds) W->max_fds = W->fds.size();
	ev_hash(0xfd, fd);
	return fd;
}
static void drop_fd(int fd) {
	auto i = W->fds.find(fd);
	if (i == W->fds.end()) return;
	OpenFile o = i->second;
	W->fds.erase(i);
	if (o.kind == OF_FS) {
		auto k = std::make_pair(o.root, o.ino);
		if (!--W->opens[k]) {
			W->opens.erase(k);
			Inode *n = fs_inode(o.root, o.ino);
			if (n && n->links.empty() && o.ino != 256) { if (n->tmp) W->cur_tmp.erase(o.ino); fs_release_inode(o.root, o.ino); }
		}
	}
}
void close_all_fds() {
	std::vector<int> v;
	for (auto &x : W->fds) v.push_back(x.first);
	for (int x : v) drop_fd(x);
	W->cur_tmp.clear();
}
extern "C" int close(int fd);

// data work by a bees task is in progress
// work in progress takes longer when the storage is slow
static u64 slow_grace() { return static_cast<u64>(4000 * W->cfgd("p_slow", 0) * W->cfgu("slow_ms", 0)) * MS; }
struct DataWork {
	DataWork() {
		W->in_data++;
		W->max_inflight = std::max<u64>(W->max_inflight, W->in_data);
		u64 lim = W->cfgu("task_limit", 0);
		if (lim && static_cast<u64>(W->in_data) > lim)
			violate("P19", "inflight", "%d data operations in progress at once with a limit of %llu workers", W->in_data, (unsigned long long)lim);
		// with the load well above the target only the minimum number of workers is left after a while
		if (W->load_high_since && C->now > W->load_high_since + W->load_settle + slow_grace() && W->in_data > static_cast<int>(W->load_min)) {
			violate("P19", "load", "%d data operations in progress although the load has been %.1f above the target for %.0f s (minimum %llu workers)", W->in_data, W->load_over, (C->now - W->load_high_since) / 1e9, (unsigned long long)W->load_min);
		}
		if (W->load_high_since) W->stats["load_high_ops"]++;
		world_activity();
	}
	~DataWork() { W->in_data--; }
};

// ------------------------------------------------------------------ paths
// walk a path; returns 0 and fills root/ino, or -errno
struct Walk { u64 root = 0, ino = 0; bool home = false; bool xdev = false; bool symlink = false; };
static int walk(u64 root, u64 ino, const char *path, int flags, u64 resolve, Walk &w, int depth = 0) {
	if (depth > 8) return -ELOOP;
	std::string p(path);
	if (p.empty()) return -ENOENT;
	if (p[0] == '/') { if (resolve & 8) return -EXDEV; root = 5; ino = 256; }
	size_t i = 0;
	while (i < p.size()) {
		while (i < p.size() && p[i] == '/') ++i;
		if (i >= p.size()) break;
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string c = p.substr(i, j - i);
		bool last = p.find_first_not_of('/', j) == std::string::npos;
		i = j;
		if (c == ".") continue;
		Inode *d = fs_inode(root, ino);
		if (!d) return -ENOENT;
		if (d->kind != K_DIR) return -ENOTDIR;
		if (c == "..") {
			if (ino == 256) { Subvol *s = fs_sub(root); if (root != 5 && s) { ino = s->dirid; root = s->parent; } }
			else if (!d->links.empty()) ino = d->links.begin()->first;
			continue;
		}
		auto e = d->dents.find(c);
		if (e == d->dents.end()) return -ENOENT;
		if (e->second.subvol) {
			if (!fs_sub(e->second.subvol)) return -ENOENT;
			root = e->second.subvol; ino = 256;
			continue;
		}
		Inode *n = fs_inode(root, e->second.ino);
		if (!n) return -ENOENT;
		if (n->kind == K_SYMLINK) {
			if (resolve & 4) return -ELOOP;
			if (last && (flags & O_NOFOLLOW)) return -ELOOP;
			Walk w2;
			int rv = walk(root, ino, n->target.c_str(), 0, resolve, w2, depth + 1);
			if (rv) return rv;
			root = w2.root; ino = w2.ino; w.symlink = true;
			continue;
		}
		ino = n->ino;
	}
	w.root = root; w.ino = ino;
	return 0;
}

static int home_open(const char *name, int flags) {
	Home &h = W->home;
	int acc = flags & O_ACCMODE;
	auto it = h.names.find(name);
	u64 id;
	if (it == h.names.end()) {
		if (!(flags & O_CREAT)) return fail(ENOENT);
		id = h.next_id++;
		h.files[id].id = id; h.files[id].name0 = name;
		h.names[name] = id;
		h.pending.push_back(DirOp{ 0, name, "", id });
		W->stats["home_creates"]++;
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
		id = it->second;
		if ((flags & O_TRUNC) && acc != O_RDONLY) {
			h.files[id].data.clear(); h.files[id].size_dirty = true;
			home_check("truncate on open");
		}
	}
	OpenFile o; o.kind = OF_HOMEFILE; o.hid = id; o.flags = flags;
	if (flags & O_CREAT) home_check("create");
	return new_fd(o);
}

static int do_open(int dirfd, const char *path, int flags, u64 resolve, bool is2) { SimScope ss0;
	if (dirfd == AT_FDCWD) {
		Enter e(S_OPEN_ROOT, "open");
		if (!strcmp(path, "/simroot")) { OpenFile o; o.kind = OF_FS; o.root = 5; o.ino = 256; o.flags = flags; return new_fd(o); }
		if (!strcmp(path, "/simhome") && !W->home.inside) { OpenFile o; o.kind = OF_HOMEDIR; return new_fd(o); }
		return fail(ENOENT);
	}
	OpenFile *d = of(dirfd);
	if (!d) { badfd(dirfd, "openat"); return fail(EBADF); }
	if (d->kind == OF_HOMEDIR) {
		Enter e(S_OPEN_HOME, "openat home");
		ksleep(S_OPEN_HOME, 20 * US);
		if (Fault f = fault(S_OPEN_HOME); f.err) { if ((flags & O_CREAT) && !strncmp(path, "beescrawl", 9)) W->state_fail_t = C->now; return fail(f.err); }
		return home_open(path, flags);
	}
	if (d->kind != OF_FS) return fail(ENOTDIR);
	if (path[0] == '/' && !strcmp(path, "/simhome") && !W->home.inside) { OpenFile o; o.kind = OF_HOMEDIR; return new_fd(o); }
	if (W->home.inside && d->root == 5 && d->ino == 256 && !strcmp(path, ".beeshome")) { OpenFile o; o.kind = OF_HOMEDIR; return new_fd(o); }
	u64 droot = d->root, dino = d->ino;
	if ((flags & O_TMPFILE) == O_TMPFILE) {
		Enter e(S_OPEN_TMP, "open tmpfile");
		ksleep(S_OPEN_TMP, 50 * US);
		if (Fault f = fault(S_OPEN_TMP); f.err) return fail(f.err);
		Subvol *s = fs_sub(droot);
		if (!s || s->ro) return fail(EROFS);
		u64 ino;
		int rv = fs_tmpfile(droot, &ino);
		if (rv) return fail(-rv);
		if (!(flags & O_EXCL)) violate("P17", "tmp-linkable", "a temporary file was created without O_EXCL: it could be linked into the filesystem");
		W->cur_tmp.insert(ino);
		W->max_tmp = std::max<u64>(W->max_tmp, W->cur_tmp.size());
		W->stats["tmp_creates"]++;
		u64 lim = W->cfgu("tmp_limit", 0);
		if (lim && W->cur_tmp.size() > lim)
			violate("P17", "tmp-count", "%zu temporary files exist at once with %llu workers", W->cur_tmp.size(), (unsigned long long)W->cfgu("task_limit", 0));
		OpenFile o; o.kind = OF_FS; o.root = droot; o.ino = ino; o.flags = flags;
		int fd = new_fd(o);
		if (fd < 0) { W->cur_tmp.erase(ino); fs_release_inode(droot, ino); }
		return fd;
	}
	int site = (flags & O_DIRECTORY) ? S_OPEN_ROOT : S_OPEN_FILE;
	Enter e(site, "openat");
	ksleep(site, 20 * US);
	if (is2 && W->cfgu("no_openat2", 0)) return fail(ENOSYS);
	if (flags & (O_CREAT | O_TRUNC)) {
		violate("P02", "open-create", "open of %s inside the filesystem with flags %#x creates or truncates", path, flags);
		return fail(EACCES);
	}
	if ((flags & O_ACCMODE) != O_RDONLY) {
		violate("P02", "open-write", "user file %s opened for writing (flags %#x)", path, flags);
		return fail(EACCES);
	}
	if (!(flags & O_NOFOLLOW) && !(resolve & 4)) violate("P02", "open-follow", "%s opened without protection against symbolic links", path);
	if (Fault f = fault(site); f.err) return fail(f.err);
	Walk w;
	int rv = walk(droot, dino, path, flags, resolve, w);
	if (rv) return fail(-rv);
	if ((resolve & 1) && w.root != droot && W->cfgu("strict_xdev", 0)) return fail(EXDEV);
	Inode *n = fs_inode(w.root, w.ino);
	if (!n) return fail(ENOENT);
	if ((flags & O_DIRECTORY) && n->kind != K_DIR) return fail(ENOTDIR);
	if (n->kind == K_SYMLINK) return fail(ELOOP);
	OpenFile o; o.kind = OF_FS; o.root = w.root; o.ino = w.ino; o.flags = flags;
	W->stats[(flags & O_DIRECTORY) ? "open_dir" : "open_file"]++;
	return new_fd(o);
}

// ------------------------------------------------------------------ data
static void touch_atime(const OpenFile &o, Inode &n) {
	if (o.flags & O_NOATIME) return;
	n.atime = C->now;
	if (!n.tmp) violate("P01", "atime", "reading %s changed its access time", fs_path(o.root, o.ino).c_str());
}

static i64 read_fs(const OpenFile &o, u8 *buf, u64 n, u64 off) {
	Inode *i = fs_inode(o.root, o.ino);
	if (!i) return -ESTALE;
	if (i->kind == K_DIR) return -EISDIR;
	touch_atime(o, *i);
	if (off >= i->size) return 0;
	n = std::min(n, i->size - off);
	u64 done = 0; u8 blk[BS];
	while (done < n) {
		u64 b = (off + done) / BS, bo = (off + done) % BS, l = std::min(BS - bo, n - done);
		content_expand(fs_block(*i, b), blk);
		memcpy(buf + done, blk + bo, l);
		done += l;
	}
	return n;
}

static bool pause_violation(const char *what) {
	if (W->paused && C->now > W->pause_time + W->cfgu("pause_grace_ms", 120000) * MS + slow_grace()) {
		violate("P11", strf("paused:%s", what), "%s %.1f s after SIGUSR1", what, (C->now - W->pause_time) / 1e9);
		return true;
	}
	return false;
}

static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "pread"); return fail(EBADF); }
	if (o->kind == OF_HOMEFILE) {
		Enter e(S_PREAD_HASH, "pread home");
		ksleep(S_PREAD_HASH, 300 * US);
		Fault f = fault(S_PREAD_HASH);
		if (f.err) return fail(f.err);
		o = of(fd); if (!o) return fail(EBADF);
		HFile &h = W->home.files[o->hid];
		if (static_cast<u64>(off) >= h.data.size()) return 0;
		u64 l = std::min<u64>(n, h.data.size() - off);
		if (f.is("short")) l = l / 2 & ~511ULL;
		memcpy(buf, h.data.data() + off, l);
		if (n >= 131072) W->hash_ext_read.insert(off / 131072);
		return l;
	}
	if (o->kind != OF_FS) return fail(EISDIR);
	u64 root = o->root, ino = o->ino;
	Inode *i = fs_inode(root, ino);
	bool tmp = i && i->tmp;
	int site = tmp ? S_PREAD_TMP : S_PREAD;
	Enter e(site, tmp ? "pread tmp" : "pread");
	DataWork dw;
	pause_violation("data read");
	ksleep(site, n > 65536 ? 400 * US : 40 * US);
	if (W->read_ms && !tmp && n <= 65536 && !W->fair) core_sleep(W->read_ms * MS, W_KERNEL);
	o = of(fd);
	if (!o || o->root != root || o->ino != ino) { badfd(fd, "pread"); return fail(EBADF); }
	Fault f = fault(site);
	if (f.err) return fail(f.err);
	OpenFile oc = *o;
	i64 rv = read_fs(oc, static_cast<u8 *>(buf), n, off);
	if (rv < 0) return fail(-rv);
	if (f.is("short") && rv > 1) rv = rv / 2;
	if (f.is("empty")) rv = 0;
	wlog("pread %llu:%llu%s +%llx len %llx -> %lld", (unsigned long long)root, (unsigned long long)ino, tmp ? "t" : "", (unsigned long long)off, (unsigned long long)n, (long long)rv);
	W->stats["pread"]++;
	if (rv > 0 && n <= 65536) for (u64 b = off / BS; b <= (off + rv - 1) / BS; ++b) W->thr_read.emplace(std::make_tuple(g_cur->id, root, ino, b), C->now);
	if (!tmp && rv > 0) {
		W->stats["read_bytes"] += rv;
		// reads into the throw-away buffer of the readahead emulation do not count as scanning
		if (reinterpret_cast<u64>(buf) >= 0x100000000000ULL && reinterpret_cast<u64>(buf) < 0x400000000000ULL) mark_scanned(root, ino, off, rv);
	}
	return rv;
}

static void tmp_check(u64 root, u64 ino) {
	Inode *i = fs_inode(root, ino);
	if (!i) return;
	u64 lim = W->cfgu("tmp_max", (1ULL << 30) + (128ULL << 20) + (16ULL << 20));
	if (i->size > lim) violate("P17", "tmp-size", "a temporary file grew to %llu bytes", (unsigned long long)i->size);
	W->stats["tmp_max_size"] = std::max<u64>(W->stats["tmp_max_size"], i->size);
}

static void home_written(HFile &h, u64 off, u64 n) {
	for (u64 p = off / 4096; p <= (off + n - 1) / 4096; ++p) h.dirty_pages.insert(p);
	if (W->home.inside) { F->dirty = true; }
}

static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "pwrite"); return fail(EBADF); }
	if (o->kind == OF_HOMEFILE) {
		Enter e(S_PWRITE_HASH, "pwrite hash");
		u64 hid = o->hid;
		hash_erased(off, n);
		ksleep(S_PWRITE_HASH, 500 * US);
		Fault f = fault(S_PWRITE_HASH);
		if (f.err) return fail(f.err);
		HFile &h = W->home.files[hid];
		u64 l = n;
		if (f.is("short")) l = (n / 2) & ~4095ULL;
		// the copy happens page by page: other threads may change the buffer meanwhile
		if (h.data.size() < off + l) { h.data.resize(off + l); h.size_dirty = true; }
		u64 done = 0;
		while (done < l) {
			u64 c = std::min<u64>(32768, l - done);
			memcpy(h.data.data() + off + done, static_cast<const u8 *>(buf) + done, c);
			home_written(h, off + done, c);
			done += c;
			if (done < l) core_sleep(20 * US, W_KERNEL);
		}
		W->hash_writes++;
		return l;
	}
	if (o->kind != OF_FS) return fail(EBADF);
	u64 root = o->root, ino = o->ino;
	Enter e(S_PWRITE_TMP, "pwrite tmp");
	DataWork dw;
	Inode *i = fs_inode(root, ino);
	if (!i || !i->tmp) { violate("P02", "pwrite-user", "write to user file %s", fs_path(root, ino).c_str()); return fail(EPERM); }
	pause_violation("write to a temporary file");
	ksleep(S_PWRITE_TMP, 40 * US);
	Fault f = fault(S_PWRITE_TMP);
	if (f.err) return fail(f.err);
	u64 l = n;
	if (f.is("short") && n > 1) l = n / 2;
	int rv = fs_write_bytes(root, ino, off, static_cast<const u8 *>(buf), l);
	if (rv) return fail(-rv);
	W->copies++; W->stats["tmp_bytes"] += l;
	tmp_check(root, ino);
	return l;
}

static ssize_t do_read(int fd, void *buf, size_t n) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "read"); return fail(EBADF); }
	if (o->kind != OF_HOMEFILE) return fail(EINVAL);
	Enter e(S_READ_HOME, "read home");
	ksleep(S_READ_HOME, 30 * US);
	Fault f = fault(S_READ_HOME);
	if (f.err) return fail(f.err);
	o = of(fd); if (!o) return fail(EBADF);
	HFile &h = W->home.files[o->hid];
	if (o->pos >= h.data.size()) return 0;
	u64 l = std::min<u64>(n, h.data.size() - o->pos);
	if (f.is("short") && l > 1) l /= 2;
	memcpy(buf, h.data.data() + o->pos, l);
	o->pos += l;
	return l;
}

static ssize_t do_write(int fd, const void *buf, size_t n) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "write"); return fail(EBADF); }
	if (o->kind == OF_FS) {
		violate("P02", "write-user", "write() to %s", fs_path(o->root, o->ino).c_str());
		return fail(EPERM);
	}
	if (o->kind != OF_HOMEFILE) return fail(EBADF);
	Enter e(S_WRITE_STATE, "write state");
	u64 hid = o->hid;
	ksleep(S_WRITE_STATE, 50 * US);
	Fault f = fault(S_WRITE_STATE);
	o = of(fd); if (!o) return fail(EBADF);
	HFile &h = W->home.files[hid];
	h.intended = std::max<u64>(h.intended, o->pos + n);
	if (f.kind && !strncmp(h.name0.c_str(), "beescrawl", 9)) W->state_fail_t = C->now;
	if (f.err && !f.is("partial")) return fail(f.err);
	u64 l = n;
	if ((f.is("short") || f.is("partial")) && n > 1) l = n / 2;
	if (h.data.size() < o->pos + l) { h.data.resize(o->pos + l); h.size_dirty = true; }
	memcpy(h.data.data() + o->pos, buf, l);
	if (l) home_written(h, o->pos, l);
	o->pos += l;
	home_check("write");
	return l;
}

static int do_fsync(int fd) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "fsync"); return fail(EBADF); }
	Enter e(S_FSYNC, "fsync");
	ksleep(S_FSYNC, 20 * MS);
	Fault f = fault(S_FSYNC);
	o = of(fd); if (!o) return fail(EBADF);
	if (f.err) { if (o->kind == OF_HOMEFILE && !strncmp(W->home.files[o->hid].name0.c_str(), "beescrawl", 9)) W->state_fail_t = C->now; return fail(f.err); }
	if (o->kind == OF_HOMEFILE) {
		HFile &h = W->home.files[o->hid];
		h.durable = h.data; h.durable_size = h.data.size(); h.size_dirty = false; h.dirty_pages.clear(); h.synced_once = true;
		W->stats["home_fsync"]++;
		// journalled directory operations up to now become durable with the file (ext4) or its own creation (btrfs)
		if (!W->home.btrfs) home_commit_dir();
		home_check("fsync");
	}
	return 0;
}

static int do_ftruncate(int fd, off64_t len) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "ftruncate"); return fail(EBADF); }
	if (o->kind == OF_HOMEFILE) {
		Enter e(S_FTRUNC_HOME, "ftruncate home");
		Fault f = fault(S_FTRUNC_HOME);
		if (f.err) return fail(f.err);
		HFile &h = W->home.files[o->hid];
		h.data.resize(len);
		// the new size is metadata: it is ordered before a later rename
		h.durable.resize(len); h.durable_size = len;
		home_check("ftruncate");
		return 0;
	}
	u64 root = o->root, ino = o->ino;
	Enter e(S_FTRUNC_TMP, "ftruncate tmp");
	Inode *i = o->kind == OF_FS ? fs_inode(root, ino) : nullptr;
	if (!i || !i->tmp) { violate("P02", "ftruncate-user", "ftruncate of user file %s", fs_path(root, ino).c_str()); return fail(EPERM); }
	ksleep(S_FTRUNC_TMP, 30 * US);
	Fault f = fault(S_FTRUNC_TMP);
	if (f.err) return fail(f.err);
	int rv = fs_truncate(root, ino, len);
	if (rv) return fail(-rv);
	tmp_check(root, ino);
	return 0;
}

static int do_fstat(int fd, struct stat *st) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "fstat"); return fail(EBADF); }
	Enter e(S_FSTAT, "fstat");
	Fault f = fault(S_FSTAT);
	if (f.err) return fail(f.err);
	o = of(fd); if (!o) return fail(EBADF);
	memset(st, 0, sizeof *st);
	st->st_blksize = 4096; st->st_nlink = 1;
	if (o->kind == OF_HOMEDIR) { st->st_dev = 0x50; st->st_ino = 2; st->st_mode = S_IFDIR | 0700; return 0; }
	if (o->kind == OF_HOMEFILE) { st->st_dev = W->home.inside ? 0x105 : 0x50; st->st_ino = 100000 + o->hid; st->st_mode = S_IFREG | 0700; st->st_size = W->home.files[o->hid].data.size(); st->st_blocks = st->st_size / 512; return 0; }
	Inode *i = fs_inode(o->root, o->ino);
	st->st_dev = 0x100 + o->root; st->st_ino = o->ino;
	if (!i) { st->st_mode = S_IFREG; st->st_nlink = 0; return 0; }
	st->st_mode = i->kind == K_DIR ? S_IFDIR | 0755 : i->kind == K_SYMLINK ? S_IFLNK | 0777 : S_IFREG | 0644;
	st->st_nlink = i->links.size(); st->st_size = i->size;
	st->st_mtim.tv_sec = 1700000000 + i->mtime / SEC;
	u64 blocks = 0; for (auto &x : i->fe) if (x.second.bytenr) blocks += x.second.len;
	st->st_blocks = blocks / 512;
	return 0;
}

// ------------------------------------------------------------------ ioctls
static int io_search(OpenFile o, btrfs_ioctl_search_args_v2 *a) {
	int site = a->key.tree_id == 1 ? S_SEARCH_ROOT : a->key.tree_id == 2 ? S_SEARCH_EXTENT : a->key.tree_id == 3 ? S_SEARCH_CHUNK : S_SEARCH_SUB;
	Enter e(site, "tree_search");
	(void)o;
	ksleep(site, 15 * US);
	Fault f = fault(site);
	if (f.err) return fail(f.err);
	u64 need = 0;
	u64 tree = a->key.tree_id;
	if (tree == 0) tree = a->key.tree_id = o.root;
	std::vector<u8> tmp(std::min<u64>(a->buf_size, 1 << 24));
	if (f.is("empty")) { a->key.nr_items = 0; return 0; }
	int rv = fs_tree_search(&a->key, tmp.data(), tmp.size(), &need);
	if (g_verbose) {
		std::string l;
		u64 q = 0;
		for (u32 n = 0; !rv && n < a->key.nr_items && n < 6; ++n) { btrfs_ioctl_search_header *h = reinterpret_cast<btrfs_ioctl_search_header *>(tmp.data() + q); l += strf(" %llu.%u.%llx@%llu", (unsigned long long)h->objectid, h->type, (unsigned long long)h->offset, (unsigned long long)h->transid); q += sizeof(*h) + h->len; }
		wlog("search %llu from %llu.%u.%llx gen %llu..%llu -> %d, %u items%s", (unsigned long long)tree, (unsigned long long)a->key.min_objectid, a->key.min_type, (unsigned long long)a->key.min_offset, (unsigned long long)a->key.min_transid, (unsigned long long)a->key.max_transid, rv, a->key.nr_items, l.c_str());
	}
	if (rv == -EOVERFLOW) { a->buf_size = need; return fail(EOVERFLOW); }
	if (rv) return fail(-rv);
	memcpy(a->buf, tmp.data(), tmp.size());
	W->stats["tree_search"]++;
	return 0;
}

static int io_logino(btrfs_ioctl_logical_ino_args *a, bool v2) {
	Throttled throttled(v2 && (reinterpret_cast<u64 *>(a)[5] & 1) ? 2 : 1);
	Enter e(S_LOGINO, "logical_ino");
	DataWork dw;
	W->in_logino++;
	struct Dec { ~Dec() { W->in_logino--; } } dec;
	if (W->in_dedupe) violate("P18", "overlap", "reference lookup starts while a dedupe operation is in progress");
	W->stats["logino"]++;
	bool ignore_offset = v2 && (reinterpret_cast<u64 *>(a)[5] & 1);
	if (v2 && W->cfgu("no_logino_v2", 0)) { return fail(ENOTTY); }
	u64 bytenr = fs_extent_at(a->logical);
	u64 cost = 0;
	if (bytenr) {
		Extent &x = F->ext[bytenr];
		x.lookups++;
		cost = x.lookup_cost;
		if (cost) {
			W->stats["slow_lookups"]++;
			bool toxic = cost >= 5500 * MS;
			if (toxic) x.slow_lookups++;
			W->stats["max_slow_lookups_per_extent"] = std::max(W->stats["max_slow_lookups_per_extent"], x.slow_lookups);
			if (x.slow_inc != W->inc) { x.slow_inc = W->inc; x.slow_at.clear(); }
			if (toxic) {
				u64 k = ++x.slow_at[a->logical]; u64 &mx = W->stats["max_slow_lookups_per_address"]; mx = std::max(mx, k);
				if (W->cfgu("slow_limit", 0) && k > W->cfgu("slow_limit", 0))
					violate("P15", "relookup", "an address whose reference lookup takes %.1f s of kernel time was looked up %llu times", cost / 1e9, (unsigned long long)k);
			}
			u64 lim = W->cfgu("slow_limit", 0) ? (W->cfgu("slow_limit", 0) + x.cids.size()) * (W->inc + 1) : 0;
			if (lim && toxic && x.slow_lookups > lim)
				violate("P15", "relookup", "an extent whose reference lookup takes %.1f s of kernel time was looked up %llu times", cost / 1e9, (unsigned long long)x.slow_lookups);
		}
	}
	wlog("logino %llx cost %llu ms", (unsigned long long)a->logical, (unsigned long long)(cost / MS));
	ksleep(S_LOGINO, 80 * US);
	op_time("op_ms_logino");
	if (cost) {
		// CPU time in the kernel, the thread stays runnable: time passes for everyone
		u64 left = cost;
		while (left) { u64 s = std::min(left, 200 * MS); core_cost(0, true); g_cur->cpu_sys += s; core_sleep(s, W_KERNEL); left -= s; }
	}
	if (W->in_dedupe) violate("P18", "overlap", "a dedupe operation started while a reference lookup was in progress");
	Fault f = fault(S_LOGINO);
	if (f.err) return fail(f.err);
	for (auto &c : F->chunks) if (c.type != 1 && a->logical >= c.start && a->logical < c.start + c.len) return fail(EINVAL);
	bytenr = fs_extent_at(a->logical);
	if (!bytenr) return fail(ENOENT);
	Extent &x = F->ext[bytenr];
	u64 pos = a->logical - bytenr;
	u64 size = std::min<u64>(a->size, v2 ? 16ULL << 20 : 65536);
	if (size < sizeof(btrfs_data_container)) return fail(EINVAL);
	struct R { u64 ino, off, root; };
	std::vector<R> out;
	for (auto &r : x.refs) {
		u64 root = std::get<0>(r), ino = std::get<1>(r), key = std::get<2>(r);
		Inode *i = fs_inode(root, ino);
		if (!i) continue;
		auto fi = i->fe.find(key);
		if (fi == i->fe.end()) continue;
		const FE &fe = fi->second;
		u64 off = key;
		if (!ignore_offset && !fe.compr) {
			if (pos < fe.ext_off || pos >= fe.ext_off + fe.len) continue;
			off = key + pos - fe.ext_off;
		}
		out.push_back(R{ ino, off, root });
		if (i->read_at < C->now) i->read_at = C->now;      // bees is going to work on it
	}
	if (f.is("empty")) out.clear();
	u64 perm = W->cfgu("ref_order", 0);
	if (perm == 1) std::reverse(out.begin(), out.end());
	else if (perm == 2) std::sort(out.begin(), out.end(), [](const R &p, const R &q) { return mix64(p.ino * 3 + p.off + p.root * 7) < mix64(q.ino * 3 + q.off + q.root * 7); });
	btrfs_data_container *dc = reinterpret_cast<btrfs_data_container *>(a->inodes);
	u64 room = (size - sizeof *dc) / 8;
	u64 n = 0, missed = 0;
	for (auto &r : out) {
		if ((n + 1) * 3 <= room) { dc->val[n * 3] = r.ino; dc->val[n * 3 + 1] = r.off; dc->val[n * 3 + 2] = r.root; ++n; }
		else ++missed;
	}
	dc->elem_cnt = n * 3; dc->elem_missed = missed * 3; dc->bytes_left = (room - n * 3) * 8; dc->bytes_missing = missed * 24;
	return 0;
}

static int io_inopaths(OpenFile o, btrfs_ioctl_ino_path_args *a) {
	Enter e(S_INOPATHS, "ino_paths");
	ksleep(S_INOPATHS, 25 * US);
	Fault f = fault(S_INOPATHS);
	if (f.err) return fail(f.err);
	u64 size = std::min<u64>(a->size, 4096);
	Inode *i = fs_inode(o.root, a->inum);
	if (!i || i->links.empty()) return fail(ENOENT);
	btrfs_data_container *dc = reinterpret_cast<btrfs_data_container *>(a->fspath);
	u8 *base = reinterpret_cast<u8 *>(dc->val);
	u64 room = size - sizeof *dc, top = room;
	u64 n = 0, missed = 0;
	for (auto &l : i->links) {
		std::string p = l.second; u64 d = l.first;
		for (int hops = 0; d != 256 && hops < 50; ++hops) {
			Inode *x = fs_inode(o.root, d);
			if (!x || x->links.empty()) break;
			p = x->links.begin()->second + "/" + p;
			d = x->links.begin()->first;
		}
		if (f.is("empty")) continue;
		if ((n + 1) * 8 + p.size() + 1 > top) { ++missed; continue; }
		top -= p.size() + 1;
		memcpy(base + top, p.c_str(), p.size() + 1);
		dc->val[n++] = top;
	}
	dc->elem_cnt = n; dc->elem_missed = missed; dc->bytes_left = top - n * 8; dc->bytes_missing = 0;
	return 0;
}

static int io_inolookup(OpenFile o, btrfs_ioctl_ino_lookup_args *a) {
	Enter e(S_INOLOOKUP, "ino_lookup");
	Fault f = fault(S_INOLOOKUP);
	if (f.err) return fail(f.err);
	if (a->treeid == 0) a->treeid = o.root;
	if (a->objectid == 256) { a->name[0] = 0; return 0; }
	Inode *i = fs_inode(a->treeid, a->objectid);
	if (!i || i->links.empty()) return fail(ENOENT);
	std::string p;
	u64 d = a->objectid;
	for (int hops = 0; d != 256 && hops < 50; ++hops) {
		Inode *x = fs_inode(a->treeid, d);
		if (!x || x->links.empty()) return fail(ENOENT);
		p = x->links.begin()->second + "/" + p;
		d = x->links.begin()->first;
	}
	if (p.size() >= BTRFS_INO_LOOKUP_PATH_MAX) return fail(ENAMETOOLONG);
	strcpy(a->name, p.c_str());
	return 0;
}

static int io_dedupe(OpenFile so, btrfs_ioctl_same_args *a) {
	Throttled throttled(0);
	throttled.done = false;
	Enter e(S_DEDUPE, "dedupe");
	DataWork dw;
	W->in_dedupe++;
	struct Dec { ~Dec() { W->in_dedupe--; } } dec;
	pause_violation("dedupe");
	if (W->in_logino) violate("P18", "overlap", "dedupe operation starts while a reference lookup is in progress");
	W->stats["dedupe_calls"]++;
	u64 changes0 = W->user_changes;
	ksleep(S_DEDUPE, 600 * US);
	if (W->in_logino) violate("P18", "overlap", "a reference lookup started while a dedupe operation was in progress");
	Fault f = fault(S_DEDUPE);
	if (f.err && !f.is("status")) return fail(f.err);
	for (int k = 0; k < a->dest_count; ++k) {
		btrfs_ioctl_same_extent_info &x = a->info[k];
		x.bytes_deduped = 0; x.status = 0;
		OpenFile *d = of(x.fd);
		if (!d) { badfd(x.fd, "dedupe"); x.status = -EBADF; continue; }
		OpenFile dof = *d;
		if (dof.kind != OF_FS || so.kind != OF_FS) { x.status = -EINVAL; violate("P02", "dedupe-home", "dedupe operation on a file of the state directory"); continue; }
		Inode *si = fs_inode(so.root, so.ino), *di = fs_inode(dof.root, dof.ino);
		if (!si || !di) { x.status = -EINVAL; continue; }
		Subvol *ds = fs_sub(dof.root);
		if (!di->tmp) {
			if (W->cfgu("send_workaround", 0) && ds && ds->ro && ds->ro_since + W->cfgu("ro_grace_ms", 120000) * MS < C->now)
				violate("P13", "ro-dst", "dedupe into %s: its subvolume has been read-only for %.0f s and the send workaround is on", fs_path(dof.root, dof.ino).c_str(), (C->now - ds->ro_since) / 1e9);
			if (ds && ds->ro) W->stats["dedupe_ro_dst"]++;
		}
		// a source without checksums that is found through an old table entry is refused by the kernel
		if ((di->flags & (IF_NODATACOW | IF_NODATASUM)) || (si->flags & IF_NODATACOW))
			violate("P14", "nocow", "dedupe operation with a no-copy-on-write file: src %s dst %s", fs_path(so.root, so.ino).c_str(), fs_path(dof.root, dof.ino).c_str());
		if (f.is("status")) { x.status = -f.err; continue; }
		if (f.is("partial") && a->length > BS) { a->length = BS; }
		u64 done = 0;
		// remember what is going to be replaced
		bool useful = false;
		for (u64 b = 0; b * BS < a->length; ++b) { u64 o1 = 0, o2 = 0; u64 p1 = fs_phys(*si, a->logical_offset / BS + b, &o1), p2 = fs_phys(*di, x.logical_offset / BS + b, &o2); if (p1 != p2 || o1 != o2) useful = true; }
		// a refusal because of a send is answered by another attempt
		for (auto it = W->refused.begin(); it != W->refused.end();)
			if (it->root == dof.root && it->ino == dof.ino && it->off >= x.logical_offset && it->off < x.logical_offset + a->length) it = W->refused.erase(it); else ++it;
		int rv = fs_dedupe(so.root, so.ino, a->logical_offset, dof.root, dof.ino, x.logical_offset, a->length, &done);
		wlog("dedupe %llu:%llu+%llx -> %llu:%llu+%llx len %llx rv %d", (unsigned long long)so.root, (unsigned long long)so.ino, (unsigned long long)a->logical_offset, (unsigned long long)dof.root, (unsigned long long)dof.ino, (unsigned long long)x.logical_offset, (unsigned long long)a->length, rv);
		if (rv == 1) {
			x.status = 1;
			W->stats["dedupe_differs"]++;
			// another party may have changed either file between the comparison and the call
			u64 grace = 600 * SEC, blk = 0;
			while (blk * BS < a->length && fs_block(*si, a->logical_offset / BS + blk) == fs_block(*di, x.logical_offset / BS + blk)) ++blk;
			auto rs = W->thr_read.find({ g_cur->id, so.root, so.ino, a->logical_offset / BS + blk }), rd = W->thr_read.find({ g_cur->id, dof.root, dof.ino, x.logical_offset / BS + blk });
			bool changed;
			if (rs != W->thr_read.end() && rd != W->thr_read.end()) changed = (!si->tmp && si->changed_at >= rs->second) || (!di->tmp && di->changed_at >= rd->second);
			else changed = W->user_changes != changes0 || (si->changed_at + grace > C->now && !si->tmp) || (di->changed_at + grace > C->now && !di->tmp) || W->last_user_change + grace > C->now;
			if (!changed && !W->had_data_fault) violate("P02", "dedupe-differs", "dedupe of data that differs: %s+%#llx and %s+%#llx, nobody changed either file", fs_path(so.root, so.ino).c_str(), (unsigned long long)a->logical_offset, fs_path(dof.root, dof.ino).c_str(), (unsigned long long)x.logical_offset);
		} else if (rv < 0) {
			x.status = rv;
			W->stats["dedupe_err"]++;
			if (rv == -EAGAIN) { W->stats["dedupe_eagain"]++; if (!di->tmp) W->refused.push_back(Refused{ dof.root, dof.ino, x.logical_offset, a->length, C->now }); }
		} else {
			x.bytes_deduped = done;
			W->dedupes++; W->dedupe_bytes += done;
			if (!useful) W->stats["dedupe_useless"]++;
			if (W->phase >= 1) W->idle_dedupes++;
			if (!di->tmp) check_content("dedupe", dof.root, dof.ino);
			if (!si->tmp) check_content("dedupe source", so.root, so.ino);
		}
	}
	core_sleep(lat(S_DEDUPE, 100 * US), W_KERNEL);
	op_time("op_ms_dedupe");
	throttled.done = true;
	return 0;
}

static int io_flags(OpenFile o, bool set, void *p) {
	int site = set ? S_SETFLAGS : S_GETFLAGS;
	Enter e(site, set ? "setflags" : "getflags");
	Fault f = fault(site);
	if (f.err) return fail(f.err);
	if (o.kind != OF_FS) return fail(ENOTTY);
	Inode *i = fs_inode(o.root, o.ino);
	if (!i) return fail(ENOENT);
	if (!set) {
		long fl = 0;
		if (i->flags & IF_NODATACOW) fl |= FS_NOCOW_FL;
		if (i->flags & IF_COMPRESS) fl |= FS_COMPR_FL;
		if (i->flags & IF_NOCOMPRESS) fl |= FS_NOCOMP_FL;
		*static_cast<int *>(p) = fl;
		return 0;
	}
	if (!i->tmp) { violate("P02", "setflags-user", "attributes of %s changed", fs_path(o.root, o.ino).c_str()); return fail(EPERM); }
	int fl = *static_cast<int *>(p);
	if ((fl & FS_COMPR_FL) && (fl & FS_NOCOMP_FL)) return fail(EINVAL);
	i->flags = ((fl & FS_NOCOW_FL) ? IF_NODATACOW | IF_NODATASUM : 0) | ((fl & FS_COMPR_FL) ? IF_COMPRESS : 0) | ((fl & FS_NOCOMP_FL) ? IF_NOCOMPRESS : 0);
	return 0;
}

struct fs_info_full { __u64 max_id, num_devices; __u8 fsid[16]; __u32 nodesize, sectorsize, clone_alignment; __u16 csum_type, csum_size; __u64 flags, generation; __u8 metadata_uuid[16]; };

static int io_fsinfo(OpenFile o, void *p) {
	Enter e(S_FSINFO, "fs_info");
	Fault f = fault(S_FSINFO);
	if (f.err) return fail(f.err);
	if (o.kind != OF_FS && !W->home.btrfs) return fail(ENOTTY);
	fs_info_full *a = static_cast<fs_info_full *>(p);
	u64 want = a->flags;
	a->max_id = 1; a->num_devices = 1; a->nodesize = 16384; a->sectorsize = 4096; a->clone_alignment = 4096;
	memset(a->fsid, (o.kind == OF_FS || W->home.inside) ? 0x42 : 0x43, 16);
	a->csum_type = W->cfgu("csum_type", 0);
	static const unsigned short sizes[] = { 4, 8, 32, 32 };
	a->csum_size = sizes[a->csum_type & 3];
	a->flags = want & 7;
	a->generation = F->last_commit;
	return 0;
}

static int do_ioctl(int fd, unsigned long req, void *arg) { SimScope ss0;
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "ioctl"); return fail(EBADF); }
	OpenFile oc = *o;
	if (oc.kind != OF_FS && req != BTRFS_IOC_FS_INFO) { if (req == FS_IOC_GETFLAGS) { *static_cast<int *>(arg) = 0; return 0; } return fail(ENOTTY); }
	switch (req) {
	case BTRFS_IOC_TREE_SEARCH_V2: return io_search(oc, static_cast<btrfs_ioctl_search_args_v2 *>(arg));
	case BTRFS_IOC_LOGICAL_INO: return io_logino(static_cast<btrfs_ioctl_logical_ino_args *>(arg), false);
	case BTRFS_IOC_LOGICAL_INO_V2: return io_logino(static_cast<btrfs_ioctl_logical_ino_args *>(arg), true);
	case BTRFS_IOC_INO_PATHS: return io_inopaths(oc, static_cast<btrfs_ioctl_ino_path_args *>(arg));
	case BTRFS_IOC_INO_LOOKUP: return io_inolookup(oc, static_cast<btrfs_ioctl_ino_lookup_args *>(arg));
	case BTRFS_IOC_FILE_EXTENT_SAME: return io_dedupe(oc, static_cast<btrfs_ioctl_same_args *>(arg));
	case FS_IOC_GETFLAGS: return io_flags(oc, false, arg);
	case FS_IOC_SETFLAGS: return io_flags(oc, true, arg);
	case BTRFS_IOC_FS_INFO: return io_fsinfo(oc, arg);
	case BTRFS_IOC_CLONE_RANGE: case BTRFS_IOC_CLONE: {
		Enter e(S_CLONE, "clone");
		Inode *i = fs_inode(oc.root, oc.ino);
		if (!i || !i->tmp) { violate("P02", "clone-user", "clone into user file %s without comparison", fs_path(oc.root, oc.ino).c_str()); return fail(EPERM); }
		btrfs_ioctl_clone_range_args *c = static_cast<btrfs_ioctl_clone_range_args *>(arg);
		OpenFile *s = of(c->src_fd);
		if (!s || s->kind != OF_FS) return fail(EBADF);
		int rv = fs_clone(s->root, s->ino, c->src_offset, oc.root, oc.ino, c->dest_offset, c->src_length);
		return rv ? fail(-rv) : 0;
	}
	default:
		if (req == BTRFS_IOC_DEFRAG_RANGE || req == BTRFS_IOC_SUBVOL_SETFLAGS || req == BTRFS_IOC_SNAP_CREATE_V2 || req == BTRFS_IOC_SNAP_DESTROY)
			violate("P02", "ioctl", "modifying ioctl %#lx on user file %s", req, fs_path(oc.root, oc.ino).c_str());
		W->stats["unknown_ioctl"]++;
		return fail(ENOTTY);
	}
}

// ------------------------------------------------------------------ interposed functions
#define RAW(...) do { long rv_ = raw_syscall6(__VA_ARGS__); if (rv_ < 0 && rv_ > -4096) { errno = -rv_; return -1; } return rv_; } while (0)
extern "C" long raw_syscall6(long n, long a, long b, long c, long d, long e, long f);
extern "C" [[noreturn]] void raw_exit(int code);
#define L(x) ((long)(x))

extern "C" {
int open64(const char *path, int flags, ...) {
	if (!insim()) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); RAW(SYS_openat, AT_FDCWD, L(path), flags, m, 0, 0); }
	return do_open(AT_FDCWD, path, flags, 0, false);
}
int open(const char *path, int flags, ...) {
	if (!insim()) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); RAW(SYS_openat, AT_FDCWD, L(path), flags, m, 0, 0); }
	return do_open(AT_FDCWD, path, flags, 0, false);
}
int openat64(int d, const char *path, int flags, ...) {
	if (!insim()) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); RAW(SYS_openat, d, L(path), flags, m, 0, 0); }
	return do_open(d, path, flags, 0, false);
}
int openat(int d, const char *path, int flags, ...) {
	if (!insim()) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); RAW(SYS_openat, d, L(path), flags, m, 0, 0); }
	return do_open(d, path, flags, 0, false);
}
int __openat64_2(int d, const char *path, int flags) { if (!insim()) RAW(SYS_openat, d, L(path), flags, 0, 0, 0); return do_open(d, path, flags, 0, false); }
int __open64_2(const char *path, int flags) { if (!insim()) RAW(SYS_openat, AT_FDCWD, L(path), flags, 0, 0, 0); return do_open(AT_FDCWD, path, flags, 0, false); }

long syscall(long n, ...) {
	va_list ap; va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (insim()) {
		if (n == SYS_openat2) { const open_how_ *h = reinterpret_cast<const open_how_ *>(c); return do_open(a, reinterpret_cast<const char *>(b), h->flags, h->resolve, true); }
		if (n == SYS_gettid) return 5000 + g_cur->id;
	}
	RAW(n, a, b, c, d, e, f);
}
pid_t gettid() { return insim() ? 5000 + g_cur->id : raw_syscall6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid() { return insim() ? 4242 : raw_syscall6(SYS_getpid, 0, 0, 0, 0, 0, 0); }

int close(int fd) {
	if (!insim()) RAW(SYS_close, fd, 0, 0, 0, 0, 0);
	Enter e(S_CLOSE, "close");
	if (!of(fd)) { badfd(fd, "close"); return fail(EBADF); }
	drop_fd(fd);
	return 0;
}
int dup2(int a, int b) { if (!insim()) RAW(SYS_dup2, a, b, 0, 0, 0, 0); return fail(EBADF); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { if (!insim()) RAW(SYS_pread64, fd, L(buf), n, off, 0, 0); return do_pread(fd, buf, n, off); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) { if (!insim()) RAW(SYS_pread64, fd, L(buf), n, off, 0, 0); return do_pread(fd, buf, n, off); }
ssize_t __pread64_chk(int fd, void *buf, size_t n, off64_t off, size_t) { if (!insim()) RAW(SYS_pread64, fd, L(buf), n, off, 0, 0); return do_pread(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { if (!insim()) RAW(SYS_pwrite64, fd, L(buf), n, off, 0, 0); return do_pwrite(fd, buf, n, off); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { if (!insim()) RAW(SYS_pwrite64, fd, L(buf), n, off, 0, 0); return do_pwrite(fd, buf, n, off); }
ssize_t read(int fd, void *buf, size_t n) { if (!insim()) RAW(SYS_read, fd, L(buf), n, 0, 0, 0); return do_read(fd, buf, n); }
ssize_t write(int fd, const void *buf, size_t n) { if (!insim() || fd <= 2) RAW(SYS_write, fd, L(buf), n, 0, 0, 0); return do_write(fd, buf, n); }
int fsync(int fd) { if (!insim()) RAW(SYS_fsync, fd, 0, 0, 0, 0, 0); return do_fsync(fd); }
int fdatasync(int fd) { if (!insim()) RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0); return do_fsync(fd); }
int ftruncate64(int fd, off64_t n) { if (!insim()) RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0); return do_ftruncate(fd, n); }
int ftruncate(int fd, off_t n) { if (!insim()) RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0); return do_ftruncate(fd, n); }
int fstat64(int fd, struct stat64 *st) { if (!insim()) RAW(SYS_fstat, fd, L(st), 0, 0, 0, 0); return do_fstat(fd, reinterpret_cast<struct stat *>(st)); }
int fstat(int fd, struct stat *st) { if (!insim()) RAW(SYS_fstat, fd, L(st), 0, 0, 0, 0); return do_fstat(fd, st); }
int lstat64(const char *p, struct stat64 *st) { if (!insim()) RAW(SYS_lstat, L(p), L(st), 0, 0, 0, 0); return fail(ENOENT); }
int stat64(const char *p, struct stat64 *st) { if (!insim()) RAW(SYS_stat, L(p), L(st), 0, 0, 0, 0); return fail(ENOENT); }
int fallocate64(int fd, int mode, off64_t off, off64_t len) {
	if (!insim()) RAW(SYS_fallocate, fd, mode, off, len, 0, 0);
	Enter e(S_MISC, "fallocate");
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "fallocate"); return fail(EBADF); }
	if (o->kind != OF_FS) return fail(EOPNOTSUPP);
	Inode *i = fs_inode(o->root, o->ino);
	if (!i || !i->tmp) { violate("P02", "fallocate-user", "fallocate on user file %s", fs_path(o->root, o->ino).c_str()); return fail(EPERM); }
	int rv = (mode & FALLOC_FL_PUNCH_HOLE) ? fs_punch(o->root, o->ino, off, len) : fs_fallocate(o->root, o->ino, off, len);
	return rv ? fail(-rv) : 0;
}
int fallocate(int fd, int mode, off_t off, off_t len) { return fallocate64(fd, mode, off, len); }
int posix_fadvise64(int fd, off64_t, off64_t, int) {
	if (!insim()) return 0;
	Enter e(S_READAHEAD, "fadvise");
	if (!of(fd)) { badfd(fd, "fadvise"); return EBADF; }
	Fault f = fault(S_READAHEAD);
	return f.err;
}
ssize_t readahead(int fd, off64_t, size_t) {
	if (!insim()) return 0;
	Enter e(S_READAHEAD, "readahead");
	if (!of(fd)) { badfd(fd, "readahead"); return fail(EBADF); }
	ksleep(S_READAHEAD, 100 * US);
	return 0;
}
int fstatfs64(int fd, struct statfs64 *b) {
	if (!insim()) RAW(SYS_fstatfs, fd, L(b), 0, 0, 0, 0);
	Enter e(S_FSTATFS, "fstatfs");
	OpenFile *o = of(fd);
	if (!o) { badfd(fd, "fstatfs"); return fail(EBADF); }
	Fault f = fault(S_FSTATFS);
	if (f.err) return fail(f.err);
	memset(b, 0, sizeof *b);
	b->f_bsize = 4096; b->f_blocks = 1 << 24; b->f_bfree = 1 << 23;
	b->f_type = (o->kind == OF_FS || W->home.btrfs) ? BTRFS_SUPER_MAGIC : 0xEF53;
	return 0;
}
int fstatfs(int fd, struct statfs *b) { return fstatfs64(fd, reinterpret_cast<struct statfs64 *>(b)); }
int fstatvfs64(int fd, struct statvfs64 *b) {
	if (!insim()) return fail(ENOSYS);
	Enter e(S_FSTATFS, "fstatvfs");
	if (!of(fd)) { badfd(fd, "fstatvfs"); return fail(EBADF); }
	memset(b, 0, sizeof *b);
	b->f_bsize = b->f_frsize = 4096; b->f_blocks = 1 << 24; b->f_bfree = b->f_bavail = 1 << 23;
	return 0;
}
int statvfs64(const char *, struct statvfs64 *) { return fail(ENOSYS); }
int unlinkat(int d, const char *name, int flags) {
	if (!insim()) RAW(SYS_unlinkat, d, L(name), flags, 0, 0, 0);
	Enter e(S_UNLINK, "unlinkat");
	OpenFile *o = of(d);
	if (!o) { badfd(d, "unlinkat"); return fail(EBADF); }
	if (o->kind != OF_HOMEDIR) { violate("P02", "unlink", "unlink of %s inside the filesystem", name); return fail(EPERM); }
	ksleep(S_UNLINK, 30 * US);
	Fault f = fault(S_UNLINK);
	if (f.err) return fail(f.err);
	Home &h = W->home;
	auto i = h.names.find(name);
	if (i == h.names.end()) return fail(ENOENT);
	h.pending.push_back(DirOp{ 2, name, "", i->second });
	h.names.erase(i);
	home_check("unlink");
	return 0;
}
int renameat(int d1, const char *a, int d2, const char *b) {
	if (!insim()) RAW(SYS_renameat, d1, L(a), d2, L(b), 0, 0);
	Enter e(S_RENAME, "renameat");
	OpenFile *o1 = of(d1), *o2 = of(d2);
	if (!o1 || !o2) { badfd(!o1 ? d1 : d2, "renameat"); return fail(EBADF); }
	if (o1->kind != OF_HOMEDIR || o2->kind != OF_HOMEDIR) { violate("P02", "rename", "rename of %s to %s inside the filesystem", a, b); return fail(EPERM); }
	ksleep(S_RENAME, 40 * US);
	Fault f = fault(S_RENAME);
	if (f.err) { if (!strcmp(b, "beescrawl.dat")) W->state_fail_t = C->now; return fail(f.err); }
	Home &h = W->home;
	auto i = h.names.find(a);
	if (i == h.names.end()) return fail(ENOENT);
	u64 id = i->second;
	bool over = h.names.count(b);
	h.names.erase(i);
	h.names[b] = id;
	h.pending.push_back(DirOp{ 1, a, b, id });
	HFile &hf = h.files[id];
	if (over && h.btrfs) hf.orderly = true;
	if (!strcmp(b, "beescrawl.dat")) home_state_placed(hf);
	home_check("rename");
	return 0;
}
ssize_t readlink(const char *p, char *buf, size_t n) {
	if (!insim()) RAW(SYS_readlink, L(p), L(buf), n, 0, 0, 0);
	SimScope ss;
	int fd = -1;
	std::string s;
	if (sscanf(p, "/proc/self/fd/%d", &fd) == 1) {
		OpenFile *o = of(fd);
		if (!o) return fail(ENOENT);
		if (o->kind == OF_FS) s = "/simroot" + fs_path(o->root, o->ino);
		else s = "/simhome/x";
	} else return fail(ENOENT);
	if (s.size() > n) s.resize(n);
	memcpy(buf, s.data(), s.size());
	return s.size();
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (!insim()) RAW(SYS_ioctl, fd, req, L(arg), 0, 0, 0);
	return do_ioctl(fd, req, arg);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) {
	if (!insim()) return reinterpret_cast<void *>(raw_syscall6(SYS_mmap, L(a), n, prot, flags, fd, off));
	Enter e(S_MMAP, "mmap");
	Fault f = fault(S_MMAP);
	if (f.err) { errno = f.err; return MAP_FAILED; }
	u64 at = 0x400000000000ULL;
	long rv = raw_syscall6(SYS_mmap, at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (rv < 0 && rv > -4096) { errno = -rv; return MAP_FAILED; }
	if (!W->mmap_addr) { W->mmap_addr = rv; W->mmap_len = n; }
	return reinterpret_cast<void *>(rv);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap64(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n) { RAW(SYS_munmap, L(a), n, 0, 0, 0, 0); }
int madvise(void *a, size_t n, int f) { if (!insim()) RAW(SYS_madvise, L(a), n, f, 0, 0, 0); if (W->cfgu("madvise_fail", 0)) return fail(EINVAL); return 0; }
int mlock(const void *, size_t) { if (insim() && W->cfgu("mlock_fail", 0)) return fail(ENOMEM); return 0; }
int getrusage(int who, struct rusage *ru) __THROW;
int getrusage(int who, struct rusage *ru) __THROW {
	if (!insim()) { raw_syscall6(SYS_getrusage, who, L(ru), 0, 0, 0, 0); return 0; }
	Enter e(S_GETRUSAGE, "getrusage");
	Fault f = fault(S_GETRUSAGE);
	if (f.err) return fail(f.err);
	memset(ru, 0, sizeof *ru);
	u64 s = g_cur->cpu_sys, u = g_cur->cpu_user;
	ru->ru_stime.tv_sec = s / SEC; ru->ru_stime.tv_usec = s % SEC / 1000;
	ru->ru_utime.tv_sec = u / SEC; ru->ru_utime.tv_usec = u % SEC / 1000;
	return 0;
}
int getrlimit64(int, struct rlimit64 *r) __THROW;
int getrlimit64(int, struct rlimit64 *r) __THROW { r->rlim_cur = r->rlim_max = W ? W->cfgu("nofile_now", 1024) : 1024; return 0; }
int setrlimit64(int, const struct rlimit64 *r) __THROW;
int setrlimit64(int, const struct rlimit64 *r) __THROW {
	if (!insim()) return 0;
	SimScope ss;
	if (W->cfgu("setrlimit_fail", 0)) return fail(EPERM);
	W->cfg["nofile_now"] = strf("%llu", (unsigned long long)r->rlim_cur);
	return 0;
}
int getloadavg(double *l, int n) __THROW;
int getloadavg(double *l, int n) __THROW {
	if (insim()) { SimScope ss; W->stats["getloadavg"]++; if (W->cfgu("loadavg_fail", 0)) return -1; }
	for (int i = 0; i < n && i < 3; ++i) l[i] = W ? W->loadavg : 0;
	return n < 3 ? n : 3;
}
char *getenv(const char *n) __THROW;
char *getenv(const char *n) __THROW {
	if (W && g_active && !strcmp(n, "BEESHOME") && !W->home.inside) { static char p[] = "/simhome"; return p; }
	return nullptr;
}
int uname(struct utsname *u) __THROW;
int uname(struct utsname *u) __THROW {
	SimScope ss;
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux"); strcpy(u->nodename, "sim"); strcpy(u->machine, "x86_64"); strcpy(u->version, "#1");
	snprintf(u->release, sizeof u->release, "%s", W ? W->cfgs("kernel", "6.6.1").c_str() : "6.6.1");
	return 0;
}
int sigprocmask(int, const sigset_t *, sigset_t *) __THROW;
int sigprocmask(int, const sigset_t *, sigset_t *) __THROW { return 0; }
int sigwaitinfo(const sigset_t *, siginfo_t *si) {
	if (!insim()) return fail(EINVAL);
	SimScope ss;
	W->setup_done = 1; W->startup_ok_to_fail = false;
	core_yield("sigwaitinfo");
	for (;;) {
		if (!W->sigq.empty()) {
			int s = W->sigq.front(); W->sigq.erase(W->sigq.begin());
			if (si) { memset(si, 0, sizeof *si); si->si_signo = s < 0 ? 0 : s; }
			if (s < 0) return fail(EINTR);
			ev_hash(0x516, s);
			return s;
		}
		core_block(W_SIGNAL, &W->sigq, ~0ULL, "sigwaitinfo");
	}
}
int kill(pid_t p, int s) __THROW;
int kill(pid_t p, int s) __THROW { if (insim()) return fail(EPERM); return raw_syscall6(SYS_kill, p, s, 0, 0, 0, 0); }
void _exit(int code) { if (insim()) world_process_exit(code, "_exit"); raw_exit(code); }
void exit(int code) __THROW;
void exit(int code) __THROW { if (insim()) world_process_exit(code, "exit"); raw_exit(code); }
void abort() __THROW;
void abort() __THROW { if (insim()) world_process_exit(134, "abort"); raw_exit(134); }
void __assert_fail(const char *ex, const char *file, unsigned line, const char *) __THROW;
void __assert_fail(const char *ex, const char *file, unsigned line, const char *) __THROW { if (insim()) { { SimScope ss; wlog("assert %s %s:%u", ex, file, line); } world_process_exit(135, "assert"); } raw_exit(135); }
}
