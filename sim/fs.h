// Model of a btrfs filesystem as seen through the system calls bees uses.
#pragma once
#include "core.h"
#include <tuple>
#include <array>
#include <memory>

typedef u32 cid_t_;
typedef std::array<u8, 4096> Block;
const u64 BS = 4096;

// ---- block contents ------------------------------------------------------
void content_expand(u32 cid, u8 *buf);
u32 content_intern(const u8 *buf);              // 4096 bytes
u32 content_truncate(u32 cid, u32 nbytes);      // keep nbytes, zero the rest
u32 content_patch(u32 cid, u32 off, u32 len, const u8 *bytes);
u64 sim_crc64(const u8 *p, size_t n);
const u32 CID_COLLIDE = 0x40000000u;            // same crc64 as the block without the bit, other bytes
const u32 CID_RAW = 0x80000000u;

typedef std::tuple<u64, u64, u64> Ref;          // root, inode, file offset of the extent item

struct Extent {
	u64 bytenr = 0, disk_len = 0, ram_len = 0, gen = 0, mod = 0;
	u8 compr = 0;
	bool nocsum = false;
	u64 lookup_cost = 0;        // simulated kernel CPU time of a reference lookup (0 = normal)
	std::vector<u32> cids;
	std::set<Ref> refs;
	// oracle bookkeeping
	bool by_bees = false;       // written by bees (temporary copy)
	u64 uid = 0; bool relocated = false;
	bool partial = false;       // some file has (had) only a part of it
	bool raced = false;         // one of its files changed or went while bees was working on it
	u64 last_ref = 0;           // time of the last new reference
	u64 lookups = 0, slow_lookups = 0;
	std::map<u64, u32> slow_at; int slow_inc = 0;  // expensive lookups of each address by the present process
	u64 max_refs = 0;
};
enum { FE_INLINE = 0, FE_REG = 1, FE_PREALLOC = 2 };
struct FE { u64 len = 0, bytenr = 0, ext_off = 0, gen = 0, ram = 0; u8 type = FE_REG, compr = 0; u32 inl = 0; };
enum { K_FILE, K_DIR, K_SYMLINK };
const u32 IF_NODATASUM = 1, IF_NODATACOW = 2, IF_COMPRESS = 4, IF_NOCOMPRESS = 8;
struct Dent { u64 ino = 0; u64 subvol = 0; u64 idx = 0; };
struct Inode {
	u64 ino = 0; u8 kind = K_FILE; u64 size = 0; u32 flags = 0; u64 transid = 0, gen = 0; u64 atime = 0;
	u64 mtime = 0;
	std::map<u64, FE> fe;
	std::map<u64, u32> dirty;                       // delayed allocation: block -> content
	std::set<std::pair<u64, std::string>> links;    // parent dir inode, name
	std::map<std::string, Dent> dents;
	std::string target;
	bool tmp = false;           // bees temporary file
	// oracle
	std::map<u64, u32> shadow; u64 shadow_size = 0; u32 shadow_flags = 0;
	std::set<u64> read_blocks;  // not copied by snapshots on purpose
	u64 born = 0; u64 deleted_at = 0; u64 changed_at = 0; u64 read_at = 0; bool raced = false;   // changed while bees was working on it
	bool layout_locked = false;   // nodatacow file: layout must not be changed by bees
};
struct Subvol {
	u64 id = 0, parent = 0, dirid = 0; std::string name; bool ro = false, deleted = false; u64 gen = 0, otransid = 0;
	u64 ro_since = 0, ro_changed = 0, snap_at = 0; u64 deleted_at = 0;
	bool send = false;
	u64 next_ino = 257;
	std::map<u64, Inode> inodes;
};
struct Chunk { u64 start, len, type, gen; };   // type 1 data, 4 metadata
struct FsCfg {
	u64 max_extent = 1 << 20;       // largest data extent created by writeback
	bool no_holes = true;
	bool inline_ok = true;
	bool reuse = true;              // freed addresses are allocated again
	int leaf_shift = 2;             // inodes per leaf of a subvolume tree (log2)
	u64 dedupe_max = ~0ULL;
	bool root_dirty_transid = true; // root tree leaf may carry the running transaction id
	u64 chunk_size = 64ULL << 20;
};
struct FS {
	FsCfg cfg;
	std::map<u64, Subvol> subs;
	std::map<u64, Extent> ext;
	std::vector<Chunk> chunks;
	std::map<u64, u64> freemap;               // start -> len
	std::vector<std::pair<u64, u64>> pinned;  // freed in this transaction
	u64 transid = 10, last_commit = 9, next_sub = 257, root_mod = 9, extroot_mod = 9;
	bool dirty = false;
	u64 alloc_next = 0;
	u64 ncommits = 0, next_uid = 0;
	std::map<u32, u32> cid_writes;            // how often a block content was written by users
	std::set<u32> nocsum_cids;                // contents that were ever stored without checksums
};

extern FS *F;
extern Rng *fs_rng;

void fs_init(FsCfg cfg);
Inode *fs_inode(u64 root, u64 ino);
Subvol *fs_sub(u64 id);
u32 fs_block(const Inode &i, u64 blk);           // content as read() sees it
u64 fs_phys(const Inode &i, u64 blk, u64 *off = nullptr, const FE **out = nullptr, bool same = false);  // extent address holding the block (0: none)
// operations (user or bees); all return 0 or -errno
int fs_mksub(u64 parent, const std::string &name, u64 *id);
int fs_snapshot(u64 src, u64 parent, const std::string &name, bool ro, u64 *id);
int fs_delsub(u64 id);
int fs_create(u64 root, u64 dir, const std::string &name, u8 kind, u32 flags, u64 *ino);
int fs_tmpfile(u64 root, u64 *ino);
int fs_link(u64 root, u64 ino, u64 dir, const std::string &name);
int fs_unlink(u64 root, u64 dir, const std::string &name);
int fs_rename(u64 root, u64 dir, const std::string &name, u64 ndir, const std::string &nname);
int fs_write_block(u64 root, Inode &i, u64 blk, u32 cid);
int fs_write_bytes(u64 root, u64 ino, u64 off, const u8 *p, u64 len);
int fs_truncate(u64 root, u64 ino, u64 size);
int fs_fallocate(u64 root, u64 ino, u64 off, u64 len);
int fs_punch(u64 root, u64 ino, u64 off, u64 len);
int fs_clone(u64 sroot, u64 sino, u64 soff, u64 droot, u64 dino, u64 doff, u64 len);
int fs_dedupe(u64 sroot, u64 sino, u64 soff, u64 droot, u64 dino, u64 doff, u64 len, u64 *done);
int fs_defrag(u64 root, u64 ino);
void fs_flush(u64 root, u64 ino);
bool fs_commit();                                 // true if a transaction was committed
int fs_relocate(size_t chunk_index);
void fs_release_inode(u64 root, u64 ino);         // last reference to an unlinked inode is gone
void fs_drop_sub(u64 id);
u64 fs_used();
u64 fs_extent_at(u64 addr);                       // bytenr of the extent containing addr or 0
std::string fs_path(u64 root, u64 ino);
bool fs_check(std::string &why);                  // internal consistency of the model
// the tree search ioctl
int fs_tree_search(struct btrfs_ioctl_search_key *key, u8 *buf, u64 bufsize, u64 *need);
extern void (*fs_gone)(const Extent &e);           // an extent is deleted
extern u64 (*fs_open_count)(u64 root, u64 ino);
extern u64 (*fs_open_count_sub)(u64 root);
