#include "fs.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <sys/stat.h>

FS *F;
Rng *fs_rng;
u64 (*fs_open_count)(u64, u64) = nullptr;
u64 (*fs_open_count_sub)(u64) = nullptr;

// ---------------------------------------------------------------- contents
struct RawStore { std::vector<Block> blocks; std::map<u64, std::vector<u32>> byhash; };
static RawStore *g_raws = nullptr;     // created before the first fork, lives in the shared arena
static RawStore *raws() { if (!g_raws) g_raws = new RawStore; return g_raws; }
static const u64 CMAGIC = 0xc0117e17b10c0000ULL;

u64 sim_crc64(const u8 *p, size_t n) {
	static u64 T[256]; static bool init;
	if (!init) {
		for (int i = 0; i < 256; ++i) { u64 c = i; for (int j = 0; j < 8; ++j) c = (c & 1) ? (c >> 1) ^ 0xd800000000000000ULL : c >> 1; T[i] = c; }
		init = true;
	}
	u64 c = 0;
	while (n--) c = T[(c ^ *p++) & 0xff] ^ (c >> 8);
	return c;
}

void content_expand(u32 cid, u8 *buf) {
	if (!cid) { memset(buf, 0, BS); return; }
	if (cid & CID_RAW) { memcpy(buf, raws()->blocks[cid & ~CID_RAW].data(), BS); return; }
	u64 *w = reinterpret_cast<u64 *>(buf);
	u32 base = cid & ~CID_COLLIDE;
	w[0] = CMAGIC + base;
	u64 s = base * 0x9E3779B97F4A7C15ULL;
	for (int i = 1; i < 512; ++i) w[i] = mix64(s += 0x9E3779B97F4A7C15ULL);
	if (cid & CID_COLLIDE) {
		u64 c1 = sim_crc64(buf, BS - 8);
		w[0] = CMAGIC + cid;
		w[1] ^= 0x5555;
		u64 c2 = sim_crc64(buf, BS - 8);
		w[511] ^= c1 ^ c2;
	}
}

u32 content_intern(const u8 *buf) {
	const u64 *w = reinterpret_cast<const u64 *>(buf);
	u64 c = w[0] - CMAGIC;
	u8 tmp[BS];
	if (c && c < CID_RAW) {
		content_expand(c, tmp);
		if (!memcmp(tmp, buf, BS)) return c;
	}
	u64 h = 1; bool zero = true;
	for (int i = 0; i < 512; ++i) { if (w[i]) zero = false; h = mix64(h ^ w[i]) + i; }
	if (zero) return 0;
	RawStore *r = raws();
	auto &v = r->byhash[h];
	for (u32 x : v) if (!memcmp(r->blocks[x].data(), buf, BS)) return x | CID_RAW;
	Block b; memcpy(b.data(), buf, BS);
	r->blocks.push_back(b);
	v.push_back(r->blocks.size() - 1);
	return (r->blocks.size() - 1) | CID_RAW;
}

u32 content_truncate(u32 cid, u32 n) {
	if (!cid || n >= BS) return cid;
	if (!n) return 0;
	u8 b[BS]; content_expand(cid, b);
	memset(b + n, 0, BS - n);
	return content_intern(b);
}
u32 content_patch(u32 cid, u32 off, u32 len, const u8 *bytes) {
	u8 b[BS]; content_expand(cid, b);
	memcpy(b + off, bytes, len);
	return content_intern(b);
}

// ---------------------------------------------------------------- helpers
Subvol *fs_sub(u64 id) { auto i = F->subs.find(id); return i == F->subs.end() ? nullptr : &i->second; }
Inode *fs_inode(u64 root, u64 ino) {
	Subvol *s = fs_sub(root);
	if (!s) return nullptr;
	auto i = s->inodes.find(ino);
	return i == s->inodes.end() ? nullptr : &i->second;
}

static void touch(u64 root, Inode &i) {
	i.transid = F->transid;
	if (Subvol *s = fs_sub(root)) s->gen = F->transid;
	F->dirty = true;
}

static void add_free(u64 start, u64 len) {
	auto &m = F->freemap;
	auto n = m.lower_bound(start);
	if (n != m.begin()) { auto p = std::prev(n); if (p->first + p->second == start) { start = p->first; len += p->second; m.erase(p); } }
	if (n != m.end() && start + len == n->first) { len += n->second; m.erase(n); }
	m[start] = len;
}

static void new_chunk() {
	u64 end = 1ULL << 30;
	for (auto &c : F->chunks) end = std::max(end, c.start + c.len);
	// a little metadata chunk in front of every data chunk keeps address space realistic
	F->chunks.push_back(Chunk{ end, 8 << 20, 4, F->transid });
	F->chunks.push_back(Chunk{ end + (8 << 20), F->cfg.chunk_size, 1, F->transid });
	add_free(end + (8 << 20), F->cfg.chunk_size);
}

static u64 alloc_space(u64 len, u64 avoid_lo = 0, u64 avoid_hi = 0) {
	for (int pass = 0; pass < 3; ++pass) {
		for (auto it = F->freemap.begin(); it != F->freemap.end(); ++it) {
			u64 s = it->first, l = it->second;
			if (l < len) continue;
			if (s < avoid_hi && s + l > avoid_lo) continue;
			if (!F->cfg.reuse && pass == 0 && s + l <= F->alloc_next) continue;
			F->freemap.erase(it);
			if (l > len) F->freemap[s + len] = l - len;
			F->alloc_next = std::max(F->alloc_next, s + len);
			return s;
		}
		if (pass == 1) new_chunk();
	}
	return 0;
}

static Extent *new_extent(u64 ram, u64 disk, u8 compr, u64 avoid_lo = 0, u64 avoid_hi = 0) {
	u64 a = alloc_space(disk, avoid_lo, avoid_hi);
	if (!a) return nullptr;
	Extent &e = F->ext[a];
	e = Extent();
	e.bytenr = a; e.disk_len = disk; e.ram_len = ram; e.compr = compr; e.gen = e.mod = F->transid; e.uid = ++F->next_uid;
	F->dirty = true;
	return &e;
}

void (*fs_gone)(const Extent &) = nullptr;
static void ref_del(u64 root, u64 ino, u64 off, u64 bytenr) {
	auto it = F->ext.find(bytenr);
	if (it == F->ext.end()) return;
	it->second.refs.erase(Ref(root, ino, off));
	it->second.mod = F->transid;
	if (it->second.refs.empty()) {
		F->pinned.push_back({ bytenr, it->second.disk_len });
		if (fs_gone) fs_gone(it->second);
		F->ext.erase(it);
	}
	F->dirty = true;
}
static void ref_add(u64 root, u64 ino, u64 off, u64 bytenr) {
	auto it = F->ext.find(bytenr);
	if (it == F->ext.end()) return;
	it->second.refs.insert(Ref(root, ino, off));
	it->second.mod = F->transid;
	it->second.last_ref = C->now;
	if (it->second.refs.size() > it->second.max_refs) it->second.max_refs = it->second.refs.size();
	F->dirty = true;
}

// remove file extent items in [off, off+len)
static void drop_range(u64 root, Inode &i, u64 off, u64 len) {
	u64 end = off + len;
	auto it = i.fe.upper_bound(off);
	if (it != i.fe.begin()) --it;
	std::vector<u64> keys;
	for (; it != i.fe.end() && it->first < end; ++it) if (it->first + it->second.len > off) keys.push_back(it->first);
	for (u64 k : keys) {
		FE fe = i.fe[k];
		u64 fend = k + fe.len;
		// keep refs alive while re-inserting the pieces
		std::vector<std::pair<u64, FE>> pieces;
		if (k < off) { FE l = fe; l.len = off - k; pieces.push_back({ k, l }); }
		if (fend > end) { FE r = fe; r.len = fend - end; r.ext_off += end - k; pieces.push_back({ end, r }); }
		bool keeps_k = k < off;
		i.fe.erase(k);
		if (fe.bytenr && F->ext.count(fe.bytenr) && (!pieces.empty())) F->ext[fe.bytenr].partial = true;
		for (auto &p : pieces) {
			i.fe[p.first] = p.second;
			if (fe.bytenr && !(keeps_k && p.first == k)) ref_add(root, i.ino, p.first, fe.bytenr);
		}
		if (fe.bytenr && !keeps_k) ref_del(root, i.ino, k, fe.bytenr);
	}
	if (!keys.empty()) touch(root, i);
}

static const FE *fe_at(const Inode &i, u64 off, u64 *key = nullptr) {
	auto it = i.fe.upper_bound(off);
	if (it == i.fe.begin()) return nullptr;
	--it;
	if (it->first + it->second.len <= off) return nullptr;
	if (key) *key = it->first;
	return &it->second;
}

static u32 disk_block(const Inode &i, u64 blk) {
	u64 key; const FE *fe = fe_at(i, blk * BS, &key);
	if (!fe) return 0;
	if (fe->type == FE_INLINE) return fe->inl;
	if (fe->type == FE_PREALLOC || !fe->bytenr) return 0;
	auto e = F->ext.find(fe->bytenr);
	if (e == F->ext.end()) return 0;
	u64 n = (fe->ext_off + blk * BS - key) / BS;
	return n < e->second.cids.size() ? e->second.cids[n] : 0;
}

u32 fs_block(const Inode &i, u64 blk) {
	if (blk * BS >= i.size) return 0;
	auto d = i.dirty.find(blk);
	if (d != i.dirty.end()) return d->second;
	return disk_block(i, blk);
}

u64 fs_phys(const Inode &i, u64 blk, u64 *off, const FE **out, bool same) {
	u64 key; const FE *fe = fe_at(i, blk * BS, &key);
	if (!fe || fe->type != FE_REG || !fe->bytenr) return 0;
	// not written yet; the old extent still counts where the new data is the same
	auto d = i.dirty.find(blk);
	if (d != i.dirty.end() && !(same && d->second == disk_block(i, blk))) return 0;
	if (off) *off = fe->ext_off + blk * BS - key;
	if (out) *out = fe;
	return fe->bytenr;
}

u64 fs_extent_at(u64 addr) {
	auto it = F->ext.upper_bound(addr);
	if (it == F->ext.begin()) return 0;
	--it;
	return addr < it->first + it->second.disk_len ? it->first : 0;
}

u64 fs_used() { u64 n = 0; for (auto &e : F->ext) n += e.second.disk_len; return n; }

// ---------------------------------------------------------------- namespace
void fs_init(FsCfg cfg) {
	raws();
	F->cfg = cfg;
	Subvol &s = F->subs[5];
	s.id = 5; s.gen = F->transid;
	Inode &r = s.inodes[256];
	r.ino = 256; r.kind = K_DIR; r.transid = r.gen = F->transid;
	new_chunk();
	F->dirty = true;
}

static int mksub_common(u64 parent, const std::string &name, u64 *id) {
	Subvol *p = fs_sub(parent);
	Inode *d = fs_inode(parent, 256);
	if (!p || p->deleted || !d) return -ENOENT;
	if (p->ro) return -EROFS;
	if (d->dents.count(name)) return -EEXIST;
	*id = F->next_sub++;
	Dent de; de.subvol = *id; d->dents[name] = de;
	touch(parent, *d);
	F->root_mod = F->transid;
	return 0;
}
int fs_mksub(u64 parent, const std::string &name, u64 *id) {
	int rv = mksub_common(parent, name, id);
	if (rv) return rv;
	Subvol &s = F->subs[*id];
	s.id = *id; s.parent = parent; s.dirid = 256; s.name = name; s.gen = s.otransid = F->transid;
	Inode &r = s.inodes[256];
	r.ino = 256; r.kind = K_DIR; r.transid = r.gen = F->transid;
	return 0;
}
int fs_snapshot(u64 src, u64 parent, const std::string &name, bool ro, u64 *id) {
	if (!fs_sub(src) || fs_sub(src)->deleted) return -ENOENT;
	if (!fs_sub(parent) || fs_sub(parent)->deleted) return -ENOENT;
	// creating a snapshot flushes the source
	std::vector<u64> inos;
	for (auto &i : fs_sub(src)->inodes) inos.push_back(i.first);
	for (u64 i : inos) fs_flush(src, i);
	int rv = mksub_common(parent, name, id);
	if (rv) return rv;
	Subvol &s = F->subs[*id];
	s = *fs_sub(src);
	s.id = *id; s.parent = parent; s.dirid = 256; s.name = name; s.ro = ro; s.gen = s.otransid = F->transid; s.send = false;
	s.ro_since = s.ro_changed = C->now; s.snap_at = C->now;
	for (auto it = s.inodes.begin(); it != s.inodes.end();) {
		Inode &i = it->second;
		if (i.tmp || (i.kind != K_DIR && i.links.empty())) { it = s.inodes.erase(it); continue; }
		i.read_blocks.clear(); i.layout_locked = false; i.born = C->now;
		// nested subvolumes become empty directories in snapshots: drop the entries
		for (auto d = i.dents.begin(); d != i.dents.end();) { if (d->second.subvol) d = i.dents.erase(d); else ++d; }
		for (auto &f : i.fe) if (f.second.bytenr) ref_add(*id, i.ino, f.first, f.second.bytenr);
		++it;
	}
	return 0;
}
void fs_drop_sub(u64 id) {
	Subvol *s = fs_sub(id);
	if (!s) return;
	for (auto &i : s->inodes) for (auto &f : i.second.fe) if (f.second.bytenr) ref_del(id, i.first, f.first, f.second.bytenr);
	F->subs.erase(id);
	F->root_mod = F->transid; F->dirty = true;
}
int fs_delsub(u64 id) {
	Subvol *s = fs_sub(id);
	if (!s || id == 5 || s->deleted) return -ENOENT;
	for (auto &x : F->subs) if (x.second.parent == id && !x.second.deleted) return -ENOTEMPTY;
	Inode *d = fs_inode(s->parent, s->dirid);
	if (d) { d->dents.erase(s->name); touch(s->parent, *d); }
	s->deleted = true; s->deleted_at = C->now;
	for (auto &i : s->inodes) if (!i.second.deleted_at) i.second.deleted_at = C->now;
	F->root_mod = F->transid; F->dirty = true;
	if (!fs_open_count_sub || !fs_open_count_sub(id)) fs_drop_sub(id);
	return 0;
}
int fs_create(u64 root, u64 dir, const std::string &name, u8 kind, u32 flags, u64 *ino) {
	Subvol *s = fs_sub(root);
	Inode *d = fs_inode(root, dir);
	if (!s || s->deleted || !d || d->kind != K_DIR) return -ENOENT;
	if (s->ro) return -EROFS;
	if (d->dents.count(name)) return -EEXIST;
	*ino = s->next_ino++;
	Dent de; de.ino = *ino; d->dents[name] = de;
	Inode &i = s->inodes[*ino];
	i.ino = *ino; i.kind = kind; i.flags = flags; i.gen = F->transid; i.born = C->now; i.changed_at = C->now;
	i.shadow_flags = flags;
	i.links.insert({ dir, name });
	touch(root, *fs_inode(root, dir)); touch(root, i);
	return 0;
}
int fs_tmpfile(u64 root, u64 *ino) {
	Subvol *s = fs_sub(root);
	if (!s) return -ENOENT;
	*ino = s->next_ino++;
	Inode &i = s->inodes[*ino];
	i.ino = *ino; i.kind = K_FILE; i.gen = F->transid; i.tmp = true; i.born = C->now;
	touch(root, i);
	return 0;
}
int fs_link(u64 root, u64 ino, u64 dir, const std::string &name) {
	Subvol *s = fs_sub(root);
	Inode *d = fs_inode(root, dir), *i = fs_inode(root, ino);
	if (!s || s->ro || s->deleted || !d || !i || i->links.empty() || d->kind != K_DIR || i->kind == K_DIR) return -ENOENT;
	if (d->dents.count(name)) return -EEXIST;
	Dent de; de.ino = ino; d->dents[name] = de;
	i->links.insert({ dir, name });
	touch(root, *d); touch(root, *i);
	return 0;
}
void fs_release_inode(u64 root, u64 ino) {
	Inode *i = fs_inode(root, ino);
	if (!i || !i->links.empty() || ino == 256) return;
	if (fs_open_count && fs_open_count(root, ino)) return;
	for (auto &f : i->fe) if (f.second.bytenr) ref_del(root, ino, f.first, f.second.bytenr);
	Subvol *s = fs_sub(root);
	s->inodes.erase(ino);
	s->gen = F->transid;
	F->dirty = true;
}
int fs_unlink(u64 root, u64 dir, const std::string &name) {
	Subvol *s = fs_sub(root);
	Inode *d = fs_inode(root, dir);
	if (!s || s->ro || s->deleted || !d) return -ENOENT;
	auto it = d->dents.find(name);
	if (it == d->dents.end() || it->second.subvol) return -ENOENT;
	u64 ino = it->second.ino;
	Inode *i = fs_inode(root, ino);
	if (i && i->kind == K_DIR && !i->dents.empty()) return -ENOTEMPTY;
	d->dents.erase(it);
	touch(root, *d);
	if (i) {
		i->links.erase({ dir, name });
		touch(root, *i);
		if (i->links.empty()) { i->deleted_at = C->now; fs_release_inode(root, ino); }
	}
	return 0;
}
int fs_rename(u64 root, u64 dir, const std::string &name, u64 ndir, const std::string &nname) {
	Subvol *s = fs_sub(root);
	Inode *d = fs_inode(root, dir), *nd = fs_inode(root, ndir);
	if (!s || s->ro || s->deleted || !d || !nd || nd->kind != K_DIR) return -ENOENT;
	auto it = d->dents.find(name);
	if (it == d->dents.end() || it->second.subvol) return -ENOENT;
	u64 ino = it->second.ino;
	if (ino == ndir) return -EINVAL;
	Inode *i = fs_inode(root, ino);
	if (!i) return -ENOENT;
	if (i->kind == K_DIR && dir != ndir) return -EINVAL;       // keep the tree simple
	if (dir == ndir && name == nname) return 0;
	auto ex = nd->dents.find(nname);
	if (ex != nd->dents.end()) {
		if (ex->second.subvol || ex->second.ino == ino) return -EEXIST;
		int rv = fs_unlink(root, ndir, nname);
		if (rv) return rv;
		d = fs_inode(root, dir); nd = fs_inode(root, ndir); i = fs_inode(root, ino);
	}
	Dent de = d->dents[name];
	d->dents.erase(name);
	nd->dents[nname] = de;
	i->links.erase({ dir, name });
	i->links.insert({ ndir, nname });
	touch(root, *d); touch(root, *nd); touch(root, *i);
	return 0;
}

std::string fs_path(u64 root, u64 ino) {
	std::string rv;
	for (int hops = 0; hops < 100; ++hops) {
		if (ino == 256) {
			Subvol *s = fs_sub(root);
			if (!s) return "?" + rv;
			if (root == 5) return rv.empty() ? "/" : rv;
			rv = "/" + s->name + rv;
			root = s->parent; ino = s->dirid;
			continue;
		}
		Inode *i = fs_inode(root, ino);
		if (!i || i->links.empty()) return "(deleted)" + rv;
		auto l = *i->links.begin();
		rv = "/" + l.second + rv;
		ino = l.first;
	}
	return rv;
}

// ---------------------------------------------------------------- data
static bool extent_exclusive(const Extent &e, u64 root, u64 ino) {
	Inode *i = fs_inode(root, ino);
	bool first = true; u64 base = 0;
	for (auto &r : e.refs) {
		if (std::get<0>(r) != root || std::get<1>(r) != ino || !i) return false;
		auto f = i->fe.find(std::get<2>(r));
		if (f == i->fe.end()) return false;
		u64 b = f->first - f->second.ext_off;
		if (first) base = b; else if (b != base) return false;       // mapped at two places of the file
		first = false;
	}
	return true;
}

int fs_write_block(u64 root, Inode &i, u64 blk, u32 cid) {
	i.dirty[blk] = cid;
	if (!i.tmp) F->cid_writes[cid]++;
	if ((blk + 1) * BS > i.size) i.size = (blk + 1) * BS;
	touch(root, i);
	return 0;
}

// zero the bytes of the last block behind the old end of file: they read as zero anyway in this model

int fs_write_bytes(u64 root, u64 ino, u64 off, const u8 *p, u64 len) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE) return -EINVAL;
	u64 end = off + len;
	u64 newsize = std::max(i->size, end);
	while (off < end) {
		u64 blk = off / BS, bo = off % BS, n = std::min(BS - bo, end - off);
		u32 old = fs_block(*i, blk);
		u32 c = content_patch(old, bo, n, p);
		i->dirty[blk] = c;
		if (!i->tmp) F->cid_writes[c]++;
		p += n; off += n;
	}
	i->size = newsize;
	touch(root, *i);
	return 0;
}

void fs_flush(u64 root, u64 ino) {
	Inode *ip = fs_inode(root, ino);
	if (!ip || ip->dirty.empty()) return;
	Inode &i = *ip;
	// drop dirty blocks beyond EOF
	u64 nblk = (i.size + BS - 1) / BS;
	while (!i.dirty.empty() && i.dirty.rbegin()->first >= nblk) i.dirty.erase(std::prev(i.dirty.end()));
	if (i.dirty.empty()) return;
	std::map<u64, u32> d;
	d.swap(i.dirty);
	touch(root, i);
	// inline extent
	if (F->cfg.inline_ok && i.size <= 2048 && !i.tmp) {
		bool only_inline = i.fe.empty() || (i.fe.size() == 1 && i.fe.begin()->second.type == FE_INLINE);
		if (only_inline) {
			FE fe; fe.type = FE_INLINE; fe.len = BS; fe.gen = F->transid; fe.ram = i.size; fe.inl = d.begin()->second;
			i.fe.clear();
			i.fe[0] = fe;
			return;
		}
	}
	// an existing inline extent turns into a regular one
	if (i.fe.count(0) && i.fe[0].type == FE_INLINE) {
		if (!d.count(0)) d[0] = i.fe[0].inl;
		i.fe.erase(0);
	}
	while (!d.empty()) {
		u64 b0 = d.begin()->first, n = 1;
		// preallocated or nodatacow space is overwritten in place
		u64 key; const FE *cf = fe_at(i, b0 * BS, &key);
		if (cf && cf->bytenr && (cf->type == FE_PREALLOC || ((i.flags & IF_NODATACOW) && cf->type == FE_REG))) {
			auto e = F->ext.find(cf->bytenr);
			if (e != F->ext.end() && extent_exclusive(e->second, root, ino) && !e->second.compr) {
				FE fe = *cf;
				u64 fend = key + fe.len;
				u64 k = (fe.ext_off + b0 * BS - key) / BS;
				while (d.count(b0 + n) && (b0 + n) * BS < fend) ++n;
				for (u64 x = 0; x < n; ++x) { e->second.cids[k + x] = d[b0 + x]; if (e->second.nocsum) F->nocsum_cids.insert(d[b0 + x] & ~CID_COLLIDE); d.erase(b0 + x); }
				if (fe.type == FE_PREALLOC) {
					ref_add(~0ULL, 0, 0, fe.bytenr);
					drop_range(root, i, b0 * BS, n * BS);
					FE nf = fe; nf.type = FE_REG; nf.len = n * BS; nf.ext_off = fe.ext_off + b0 * BS - key; nf.gen = F->transid;
					i.fe[b0 * BS] = nf;
					ref_add(root, ino, b0 * BS, fe.bytenr);
					ref_del(~0ULL, 0, 0, fe.bytenr);
				}
				continue;
			}
		}
		u64 maxb = std::max<u64>(1, F->cfg.max_extent / BS);
		bool comp = (i.flags & IF_COMPRESS) && !(i.flags & IF_NODATACOW) && fs_rng->chance(i.tmp ? 0.3 : 0.9);
		if (comp) maxb = std::min<u64>(maxb, 32);
		while (n < maxb && d.count(b0 + n)) {
			const FE *x = fe_at(i, (b0 + n) * BS);
			if (x && x->bytenr && (x->type == FE_PREALLOC || (i.flags & IF_NODATACOW))) break;
			++n;
		}
		u64 ram = n * BS, disk = ram;
		if (comp && n >= 2) disk = std::max<u64>(BS, (ram / 2) & ~(BS - 1)); else comp = false;
		std::vector<u32> cids;
		for (u64 x = 0; x < n; ++x) { cids.push_back(d[b0 + x]); d.erase(b0 + x); }
		drop_range(root, i, b0 * BS, ram);
		Extent *e = new_extent(ram, disk, comp ? 3 : 0);
		if (!e) return;
		e->cids = cids;
		e->nocsum = i.flags & IF_NODATASUM;
		if (e->nocsum) for (u32 c : cids) F->nocsum_cids.insert(c & ~CID_COLLIDE);
		e->by_bees = i.tmp;
		FE fe; fe.type = FE_REG; fe.len = ram; fe.bytenr = e->bytenr; fe.gen = F->transid; fe.ram = ram; fe.compr = e->compr;
		i.fe[b0 * BS] = fe;
		ref_add(root, ino, b0 * BS, e->bytenr);
	}
}

int fs_truncate(u64 root, u64 ino, u64 size) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE) return -EINVAL;
	if (size < i->size) {
		u64 nblk = (size + BS - 1) / BS;
		if (size % BS) {
			u64 blk = size / BS;
			u32 c = fs_block(*i, blk);
			u32 t = content_truncate(c, size % BS);
			if (t != c) i->dirty[blk] = t;
		}
		while (!i->dirty.empty() && i->dirty.rbegin()->first >= nblk) i->dirty.erase(std::prev(i->dirty.end()));
		u64 last = nblk * BS;
		u64 maxend = 0;
		for (auto &f : i->fe) maxend = std::max(maxend, f.first + f.second.len);
		i->size = size;
		if (maxend > last) drop_range(root, *i, last, maxend - last);
	} else {
		i->size = size;
	}
	touch(root, *i);
	return 0;
}

int fs_fallocate(u64 root, u64 ino, u64 off, u64 len) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE) return -EINVAL;
	if (i->fe.count(0) && i->fe[0].type == FE_INLINE) return -EINVAL;
	fs_flush(root, ino);
	u64 b = off / BS, e = (off + len + BS - 1) / BS;
	while (b < e) {
		if (fe_at(*i, b * BS)) { ++b; continue; }
		u64 n = 1;
		while (b + n < e && n * BS < F->cfg.max_extent && !fe_at(*i, (b + n) * BS)) ++n;
		Extent *x = new_extent(n * BS, n * BS, 0);
		if (!x) return -ENOSPC;
		x->cids.assign(n, 0);
		x->nocsum = i->flags & IF_NODATASUM;
		FE fe; fe.type = FE_PREALLOC; fe.len = n * BS; fe.bytenr = x->bytenr; fe.gen = F->transid; fe.ram = n * BS;
		i->fe[b * BS] = fe;
		ref_add(root, ino, b * BS, x->bytenr);
		b += n;
	}
	if (off + len > i->size) i->size = off + len;
	touch(root, *i);
	return 0;
}

int fs_punch(u64 root, u64 ino, u64 off, u64 len) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE) return -EINVAL;
	if (i->fe.count(0) && i->fe[0].type == FE_INLINE) return -EINVAL;
	off &= ~(BS - 1); len &= ~(BS - 1);
	if (off + len > i->size) { if (off >= i->size) return 0; len = ((i->size - off) & ~(BS - 1)); }
	if (!len) return 0;
	for (u64 b = off / BS; b < (off + len) / BS; ++b) i->dirty.erase(b);
	drop_range(root, *i, off, len);
	touch(root, *i);
	return 0;
}

// copy the extent items of [soff, soff+len) (len multiple of a block) to the destination
static void share_range(u64 sroot, Inode &s, u64 soff, u64 droot, Inode &d, u64 doff, u64 len) {
	(void)sroot;
	std::vector<std::pair<u64, FE>> items;
	u64 end = soff + len;
	auto it = s.fe.upper_bound(soff);
	if (it != s.fe.begin()) --it;
	for (; it != s.fe.end() && it->first < end; ++it) {
		u64 a = std::max(it->first, soff), b = std::min(it->first + it->second.len, end);
		if (a >= b) continue;
		FE f = it->second;
		if (f.bytenr) f.ext_off += a - it->first;
		f.len = b - a;
		if (f.bytenr && f.len < it->second.len && F->ext.count(f.bytenr)) F->ext[f.bytenr].partial = true;
		items.push_back({ a - soff + doff, f });
	}
	// take references first so that dropping the destination cannot free a shared extent
	for (auto &x : items) if (x.second.bytenr) ref_add(~0ULL, 0, x.first, x.second.bytenr);
	drop_range(droot, d, doff, len);
	for (auto &x : items) { d.fe[x.first] = x.second; if (x.second.bytenr) ref_add(droot, d.ino, x.first, x.second.bytenr); }
	for (auto &x : items) if (x.second.bytenr) ref_del(~0ULL, 0, x.first, x.second.bytenr);
	touch(droot, d);
}

int fs_clone(u64 sroot, u64 sino, u64 soff, u64 droot, u64 dino, u64 doff, u64 len) {
	Inode *s = fs_inode(sroot, sino), *d = fs_inode(droot, dino);
	if (!s || !d || s->kind != K_FILE || d->kind != K_FILE) return -EINVAL;
	if ((soff | doff) % BS) return -EINVAL;
	if (soff >= s->size) return -EINVAL;
	if (len == 0) len = s->size - soff;
	if (soff + len > s->size) return -EINVAL;
	if ((s->flags ^ d->flags) & IF_NODATASUM) return -EINVAL;
	u64 alen = (len + BS - 1) & ~(BS - 1);
	if (len % BS) { if (soff + len != s->size || doff + len < d->size) return -EINVAL; }
	if (s == d && doff + alen > soff && doff < soff + alen) return -EINVAL;
	fs_flush(sroot, sino); fs_flush(droot, dino);
	if ((s->fe.count(0) && s->fe[0].type == FE_INLINE) || (d->fe.count(0) && d->fe[0].type == FE_INLINE)) return -EOPNOTSUPP;
	share_range(sroot, *s, soff, droot, *d, doff, alen);
	if (doff + len > d->size) d->size = doff + len;
	return 0;
}

int fs_dedupe(u64 sroot, u64 sino, u64 soff, u64 droot, u64 dino, u64 doff, u64 len, u64 *done) {
	*done = 0;
	Inode *s = fs_inode(sroot, sino), *d = fs_inode(droot, dino);
	if (!s || !d) return -ENOENT;
	if (s->kind != K_FILE || d->kind != K_FILE) return -EINVAL;
	len = std::min(len, F->cfg.dedupe_max);
	if (soff + len > s->size) return -EINVAL;
	if (!len) return 0;
	if ((soff | doff) % BS) return -EINVAL;
	if (soff >= s->size || doff >= d->size || doff + len > d->size) return -EINVAL;
	u64 blen;
	if (soff + len == s->size) blen = ((s->size + BS - 1) & ~(BS - 1)) - soff;
	else { len &= ~(BS - 1); blen = len; }
	if (s == d && doff + blen > soff && doff < soff + blen) return -EINVAL;
	if (len % BS && doff + len < d->size) { len &= ~(BS - 1); blen = len; }
	if (!len) return 0;
	if ((s->flags ^ d->flags) & IF_NODATASUM) return -EINVAL;
	if (fs_sub(droot)->send) return -EAGAIN;
	fs_flush(sroot, sino); fs_flush(droot, dino);
	for (u64 o = 0; o < blen; o += BS)
		if (fs_block(*s, (soff + o) / BS) != fs_block(*d, (doff + o) / BS)) return 1;
	if ((s->fe.count(0) && s->fe[0].type == FE_INLINE) || (d->fe.count(0) && d->fe[0].type == FE_INLINE)) return -EOPNOTSUPP;
	share_range(sroot, *s, soff, droot, *d, doff, blen);
	*done = len;
	return 0;
}

int fs_defrag(u64 root, u64 ino) {
	Inode *i = fs_inode(root, ino);
	if (!i || i->kind != K_FILE || (i->fe.count(0) && i->fe[0].type == FE_INLINE)) return -EINVAL;
	fs_flush(root, ino);
	for (u64 b = 0; b * BS < i->size; ++b) { u32 c = disk_block(*i, b); if (fs_phys(*i, b)) i->dirty[b] = c; }
	fs_flush(root, ino);
	return 0;
}

bool fs_commit() {
	std::vector<std::pair<u64, u64>> d;
	for (auto &s : F->subs) for (auto &i : s.second.inodes) if (!i.second.dirty.empty()) d.push_back({ s.first, i.first });
	for (auto &x : d) fs_flush(x.first, x.second);
	if (!F->dirty) return false;
	// cleaner: deleted subvolumes nobody has open
	std::vector<u64> del;
	for (auto &s : F->subs) if (s.second.deleted && (!fs_open_count_sub || !fs_open_count_sub(s.first))) del.push_back(s.first);
	for (u64 x : del) fs_drop_sub(x);
	for (auto &p : F->pinned) add_free(p.first, p.second);
	F->pinned.clear();
	F->last_commit = F->transid;
	F->root_mod = F->extroot_mod = F->transid;
	F->transid++;
	F->dirty = false;
	F->ncommits++;
	return true;
}

int fs_relocate(size_t ci) {
	std::vector<Chunk *> dc;
	for (auto &c : F->chunks) if (c.type == 1) dc.push_back(&c);
	if (dc.empty()) return -ENOENT;
	Chunk c = *dc[ci % dc.size()];
	std::vector<u64> v;
	for (auto &e : F->ext) if (e.first >= c.start && e.first < c.start + c.len) v.push_back(e.first);
	if (v.empty()) return -ENOENT;
	for (u64 b : v) {
		Extent old = F->ext[b];
		Extent *e = new_extent(old.ram_len, old.disk_len, old.compr, c.start, c.start + c.len);
		if (!e) return -ENOSPC;
		u64 nb = e->bytenr;
		e->cids = old.cids; e->nocsum = old.nocsum; e->lookup_cost = old.lookup_cost; e->by_bees = old.by_bees; e->uid = old.uid; e->raced = old.raced; e->relocated = true; e->partial = old.partial; e->last_ref = old.last_ref;
		for (auto &r : old.refs) {
			Inode *i = fs_inode(std::get<0>(r), std::get<1>(r));
			if (!i) continue;
			auto f = i->fe.find(std::get<2>(r));
			if (f == i->fe.end()) continue;
			f->second.bytenr = nb;
			e->refs.insert(r);
			touch(std::get<0>(r), *i);
		}
		F->pinned.push_back({ b, old.disk_len });
		F->ext.erase(b);
	}
	// the emptied chunk is removed: its space never comes back, addresses become invalid
	for (size_t k = 0; k < F->chunks.size(); ++k) if (F->chunks[k].start == c.start) { F->chunks.erase(F->chunks.begin() + k); break; }
	for (auto it = F->freemap.begin(); it != F->freemap.end();) { if (it->first >= c.start && it->first < c.start + c.len) it = F->freemap.erase(it); else ++it; }
	std::vector<std::pair<u64, u64>> np;
	for (auto &p : F->pinned) if (p.first < c.start || p.first >= c.start + c.len) np.push_back(p);
	F->pinned = np;
	F->dirty = true;
	return 0;
}

bool fs_check(std::string &why) {
	std::map<u64, std::set<Ref>> refs;
	for (auto &s : F->subs) for (auto &i : s.second.inodes) {
		u64 last = 0;
		for (auto &f : i.second.fe) {
			if (f.first < last) { why = "overlapping file extents"; return false; }
			last = f.first + f.second.len;
			if (f.second.bytenr) {
				auto e = F->ext.find(f.second.bytenr);
				if (e == F->ext.end()) { why = "file extent without extent"; return false; }
				if (f.second.ext_off + f.second.len > e->second.ram_len) { why = "file extent beyond extent"; return false; }
				refs[f.second.bytenr].insert(Ref(s.first, i.first, f.first));
			}
		}
	}
	for (auto &e : F->ext) if (refs[e.first] != e.second.refs) { why = "reference mismatch"; return false; }
	return true;
}

// ---------------------------------------------------------------- tree search
namespace {
struct Key { u64 o; u8 t; u64 off; };
inline bool key_lt(const Key &a, const Key &b) { return a.o != b.o ? a.o < b.o : a.t != b.t ? a.t < b.t : a.off < b.off; }
struct Out {
	btrfs_ioctl_search_key *k; u8 *buf; u64 size, pos = 0; u32 found = 0; bool full = false, overflow = false; u64 need = 0; u32 limit;
	Key kmin, kmax;
	bool emit(const Key &key, u64 transid, const void *data, u32 len) {
		if (full) return false;
		if (key_lt(key, kmin)) return true;
		if (key_lt(kmax, key)) { full = true; return false; }
		if (transid < k->min_transid || transid > k->max_transid) return true;
		u64 n = sizeof(btrfs_ioctl_search_header) + len;
		if (pos + n > size) {
			full = true;
			if (!found) { overflow = true; need = n; }
			return false;
		}
		btrfs_ioctl_search_header h;
		memset(&h, 0, sizeof h);
		h.transid = transid; h.objectid = key.o; h.offset = key.off; h.type = key.t; h.len = len;
		memcpy(buf + pos, &h, sizeof h); pos += sizeof h;
		memcpy(buf + pos, data, len); pos += len;
		if (++found >= limit) { full = true; return false; }
		return true;
	}
};
}

static void search_root(Out &o) {
	u64 lt = F->cfg.root_dirty_transid ? F->root_mod : F->last_commit;
	auto root_item = [&](u64 id, u64 off, u64 gen, bool ro) {
		btrfs_root_item ri; memset(&ri, 0, sizeof ri);
		ri.generation = gen; ri.generation_v2 = gen; ri.root_dirid = 256; ri.flags = ro ? 1 : 0; ri.refs = 1; ri.otransid = off;
		ri.last_snapshot = 0; ri.ctransid = gen;
		o.emit(Key{ id, BTRFS_ROOT_ITEM_KEY, off }, lt, &ri, sizeof ri);
	};
	auto ref_item = [&](u64 obj, u8 type, u64 off, u64 dirid, const std::string &name) {
		u8 b[sizeof(btrfs_root_ref) + 256]; memset(b, 0, sizeof b);
		btrfs_root_ref *r = reinterpret_cast<btrfs_root_ref *>(b);
		r->dirid = dirid; r->sequence = 2; r->name_len = name.size();
		memcpy(b + sizeof(btrfs_root_ref), name.data(), name.size());
		o.emit(Key{ obj, type, off }, lt, b, sizeof(btrfs_root_ref) + name.size());
	};
	root_item(2, 0, F->extroot_mod, false);
	root_item(4, 0, 5, false);
	for (auto &sp : F->subs) {
		Subvol &s = sp.second;
		if (s.id != 5 && s.id < 256) continue;
		if (s.id > 5) { /* csum tree between */ }
		root_item(s.id, 0, s.gen, s.ro);
		if (s.id != 5 && !s.deleted) ref_item(s.id, BTRFS_ROOT_BACKREF_KEY, s.parent, s.dirid, s.name);
		for (auto &c : F->subs) if (c.second.parent == s.id && c.second.id != 5 && !c.second.deleted) ref_item(s.id, BTRFS_ROOT_REF_KEY, c.second.id, c.second.dirid, c.second.name);
		if (s.id == 5) root_item(7, 0, F->last_commit, false);
		if (o.full) return;
	}
}

static void search_extent(Out &o) {
	// merge block groups and extents by address
	std::vector<std::tuple<u64, int, const void *>> items;
	u64 lo = o.kmin.o;
	auto cit = F->chunks.begin();
	auto eit = F->ext.lower_bound(lo);
	// transid of leaves: groups of 1 MiB of address space
	auto leaf_transid = [&](u64 addr) {
		u64 b = addr & ~((1ULL << 20) - 1), m = 0;
		for (auto i = F->ext.lower_bound(b); i != F->ext.end() && i->first < b + (1 << 20); ++i) m = std::max(m, i->second.mod);
		return m ? m : F->last_commit;
	};
	u64 last_leaf = ~0ULL, last_t = 0;
	while (!o.full) {
		while (cit != F->chunks.end() && cit->start < lo) ++cit;
		bool have_c = cit != F->chunks.end(), have_e = eit != F->ext.end();
		if (!have_c && !have_e) break;
		if (have_e && (!have_c || eit->first <= cit->start)) {
			const Extent &e = eit->second;
			btrfs_extent_item ei; ei.refs = e.refs.size(); ei.generation = e.gen; ei.flags = BTRFS_EXTENT_FLAG_DATA;
			u64 leaf = e.bytenr >> 20;
			if (leaf != last_leaf) { last_leaf = leaf; last_t = leaf_transid(e.bytenr); }
			o.emit(Key{ e.bytenr, BTRFS_EXTENT_ITEM_KEY, e.disk_len }, last_t, &ei, sizeof ei);
			bool same = have_c && eit->first == cit->start;
			if (!same) { ++eit; continue; }
			++eit;
		}
		if (have_c) {
			const Chunk &c = *cit;
			if (c.type == 4) {
				struct { btrfs_extent_item ei; u8 x[33 - 24]; } __attribute__((packed)) md; memset(&md, 0, sizeof md);
				md.ei.refs = 1; md.ei.generation = F->last_commit; md.ei.flags = BTRFS_EXTENT_FLAG_TREE_BLOCK;
				o.emit(Key{ c.start, BTRFS_METADATA_ITEM_KEY, 0 }, F->last_commit, &md, sizeof md);
			}
			btrfs_block_group_item bg; memset(&bg, 0, sizeof bg); bg.flags = c.type; bg.chunk_objectid = 256;
			o.emit(Key{ c.start, BTRFS_BLOCK_GROUP_ITEM_KEY, c.len }, F->last_commit, &bg, sizeof bg);
			if (c.type == 4) {
				btrfs_extent_item ei; ei.refs = 1; ei.generation = F->last_commit; ei.flags = BTRFS_EXTENT_FLAG_TREE_BLOCK;
				o.emit(Key{ c.start + 16384, BTRFS_METADATA_ITEM_KEY, 1 }, F->last_commit, &ei, sizeof ei);
			}
			++cit;
		}
	}
}

static void search_chunk(Out &o) {
	btrfs_dev_item di; memset(&di, 0, sizeof di); di.devid = 1;
	o.emit(Key{ 1, BTRFS_DEV_ITEM_KEY, 1 }, 5, &di, sizeof di);
	for (auto &c : F->chunks) {
		btrfs_chunk ch; memset(&ch, 0, sizeof ch);
		ch.length = c.len; ch.owner = 2; ch.stripe_len = 65536; ch.type = c.type; ch.io_align = ch.io_width = 4096; ch.sector_size = 4096; ch.num_stripes = 1; ch.sub_stripes = 1;
		o.emit(Key{ 256, BTRFS_CHUNK_ITEM_KEY, c.start }, c.gen, &ch, sizeof ch);
	}
}

static void search_sub(Out &o, Subvol &s) {
	auto it = s.inodes.lower_bound(o.kmin.o);
	u64 last_leaf = ~0ULL, lt = 0;
	for (; it != s.inodes.end() && !o.full; ++it) {
		Inode &i = it->second;
		u64 leaf = i.ino >> F->cfg.leaf_shift;
		if (leaf != last_leaf) {
			last_leaf = leaf; lt = 0;
			for (auto j = s.inodes.lower_bound(leaf << F->cfg.leaf_shift); j != s.inodes.end() && (j->first >> F->cfg.leaf_shift) == leaf; ++j) lt = std::max(lt, j->second.transid);
			lt = std::max(lt, s.otransid && s.ro ? 0UL : lt);
		}
		btrfs_inode_item ii; memset(&ii, 0, sizeof ii);
		ii.generation = i.gen; ii.transid = i.transid; ii.size = i.size; ii.nlink = i.links.size();
		ii.mode = i.kind == K_DIR ? S_IFDIR | 0755 : i.kind == K_SYMLINK ? S_IFLNK | 0777 : S_IFREG | 0644;
		ii.flags = ((i.flags & IF_NODATASUM) ? BTRFS_INODE_NODATASUM : 0) | ((i.flags & IF_NODATACOW) ? BTRFS_INODE_NODATACOW : 0) | ((i.flags & IF_COMPRESS) ? BTRFS_INODE_COMPRESS : 0);
		o.emit(Key{ i.ino, BTRFS_INODE_ITEM_KEY, 0 }, lt, &ii, sizeof ii);
		for (auto &l : i.links) {
			u8 b[sizeof(btrfs_inode_ref) + 256]; memset(b, 0, sizeof b);
			btrfs_inode_ref *r = reinterpret_cast<btrfs_inode_ref *>(b);
			r->index = 2; r->name_len = l.second.size();
			memcpy(b + sizeof(*r), l.second.data(), l.second.size());
			o.emit(Key{ i.ino, BTRFS_INODE_REF_KEY, l.first }, lt, b, sizeof(*r) + l.second.size());
		}
		if (i.kind == K_DIR) {
			u64 idx = 2;
			for (auto &d : i.dents) {
				u8 b[sizeof(btrfs_dir_item) + 256]; memset(b, 0, sizeof b);
				btrfs_dir_item *r = reinterpret_cast<btrfs_dir_item *>(b);
				r->location.objectid = d.second.subvol ? d.second.subvol : d.second.ino;
				r->location.type = d.second.subvol ? BTRFS_ROOT_ITEM_KEY : BTRFS_INODE_ITEM_KEY;
				r->name_len = d.first.size(); r->type = 1; r->transid = i.transid;
				memcpy(b + sizeof(*r), d.first.data(), d.first.size());
				o.emit(Key{ i.ino, BTRFS_DIR_INDEX_KEY, idx++ }, lt, b, sizeof(*r) + d.first.size());
			}
		}
		if (i.kind == K_FILE) {
			u64 pos = 0, last = (i.size + BS - 1) & ~(BS - 1);
			auto hole = [&](u64 a, u64 b) {
				if (F->cfg.no_holes || a >= b) return;
				btrfs_file_extent_item fi; memset(&fi, 0, sizeof fi);
				fi.generation = i.gen; fi.ram_bytes = b - a; fi.type = BTRFS_FILE_EXTENT_REG; fi.num_bytes = b - a;
				o.emit(Key{ i.ino, BTRFS_EXTENT_DATA_KEY, a }, lt, &fi, sizeof fi);
			};
			auto fit = i.fe.begin();
			if (o.kmin.o == i.ino && o.kmin.t == BTRFS_EXTENT_DATA_KEY && o.kmin.off > 0) {
				fit = i.fe.lower_bound(o.kmin.off);
				if (fit != i.fe.begin()) { auto p = std::prev(fit); pos = p->first + p->second.len; }
			}
			for (; fit != i.fe.end() && !o.full; ++fit) {
				const FE &f = fit->second;
				hole(pos, fit->first);
				pos = fit->first + f.len;
				btrfs_file_extent_item fi; memset(&fi, 0, sizeof fi);
				fi.generation = f.gen; fi.ram_bytes = f.ram; fi.compression = f.compr; fi.type = f.type;
				if (f.type == FE_INLINE) {
					u8 b[sizeof fi + 2048]; memset(b, 0, sizeof b);
					u64 hdr = offsetof(btrfs_file_extent_item, disk_bytenr);
					memcpy(b, &fi, hdr);
					u8 blk[BS]; content_expand(f.inl, blk);
					u64 n = std::min<u64>(f.ram, 2048);
					memcpy(b + hdr, blk, n);
					o.emit(Key{ i.ino, BTRFS_EXTENT_DATA_KEY, fit->first }, lt, b, hdr + n);
					continue;
				}
				auto e = F->ext.find(f.bytenr);
				fi.disk_bytenr = f.bytenr;
				fi.disk_num_bytes = e != F->ext.end() ? e->second.disk_len : 0;
				fi.offset = f.ext_off; fi.num_bytes = f.len;
				o.emit(Key{ i.ino, BTRFS_EXTENT_DATA_KEY, fit->first }, lt, &fi, sizeof fi);
			}
			if (!o.full) hole(pos, last);
		}
	}
}

int fs_tree_search(btrfs_ioctl_search_key *k, u8 *buf, u64 bufsize, u64 *need) {
	Out o{};
	o.k = k; o.buf = buf; o.size = bufsize; o.limit = k->nr_items;
	o.kmin = Key{ k->min_objectid, static_cast<u8>(k->min_type), k->min_offset };
	o.kmax = Key{ k->max_objectid, static_cast<u8>(k->max_type), k->max_offset };
	if (!o.limit) { return 0; }
	switch (k->tree_id) {
	case 1: search_root(o); break;
	case 2: search_extent(o); break;
	case 3: search_chunk(o); break;
	default: {
		Subvol *s = fs_sub(k->tree_id);
		if (!s || (s->deleted)) return -ENOENT;
		search_sub(o, *s);
	}
	}
	if (o.overflow) { *need = o.need; return -EOVERFLOW; }
	k->nr_items = o.found;
	return 0;
}
