// Library level program: the real hash table of /repo/src, with its prefetch and writeback threads, used by simulated clients.
#define Extent SimExtent          // the name is used by crucible, too
#include "world.h"
#undef Extent
#include "bees.h"
#include <thread>

#define ATOMIC SimScope ss_
namespace {
struct HE { u64 b, e; int kind; u64 h, a; };          // kind 0 push_front, 1 push_random, 2 erase
std::vector<HE> *ev;
u64 hseq, nbuckets;
std::map<u64, std::set<u64>> *distinct;               // bucket -> distinct pairs ever inserted (as index)
std::map<std::pair<u64, u64>, u64> *pairid;
bool lossy;                                           // reads of the table may fail: what was there at start may be gone
u64 now_seq() { return ++hseq; }
// what is known about a pair during the interval [b, e]
void known(u64 h, u64 a, u64 b, u64 e, size_t self, bool &sure_in, bool &sure_out) {
	bool any_insert = false, live = false;
	sure_in = false;
	for (size_t i = 0; i < ev->size(); ++i) {
		HE &x = (*ev)[i];
		if (i == self || x.h != h || x.a != a || x.kind == 2 || x.b >= e) continue;
		any_insert = true;
		bool killed = false, maybe_killed = false;
		for (size_t j = 0; j < ev->size(); ++j) {
			HE &y = (*ev)[j];
			if (j == self || y.h != h || y.a != a || y.kind != 2) continue;
			if (x.e && y.b > x.e && y.e && y.e < b) killed = true;
			if ((!y.e || y.e > x.b) && y.b < e) maybe_killed = true;
		}
		if (!killed) live = true;
		if (x.e && x.e < b && !maybe_killed) sure_in = true;
	}
	sure_out = !any_insert || !live;
	if ((*distinct)[h % nbuckets].size() > 256) sure_in = false;
	if (lossy) for (auto &x : *ev) if (x.b == 1 && x.h == h && x.a == a) sure_in = false;
}
HFile *table_file() { auto i = W->home.names.find("beeshash.dat"); return i == W->home.names.end() ? nullptr : &W->home.files[i->second]; }
void intend(u64 h, u64 a) { u64 id = pairid->insert({ { h, a }, pairid->size() }).first->second; (*distinct)[h % nbuckets].insert(id); }
u64 arg(const HOp &h, size_t k) { return k < h.w.size() ? strtoull(h.w[k].c_str(), nullptr, 0) : 0; }
size_t begin(int kind, u64 h, u64 a) { if (kind < 2) intend(h, a); ev->push_back(HE{ now_seq(), 0, kind, h, a }); W->stats["table_ops"]++; return ev->size() - 1; }
void check_find(u64 h, u64 b, u64 e, const std::vector<BeesHashTable::Cell> &v, const char *when) {
	std::set<u64> got;
	for (auto &c : v) {
		if (c.e_hash != h) violate("H01", "wrong-hash", "%s: lookup of hash %llx returned an entry of hash %llx", when, (unsigned long long)h, (unsigned long long)c.e_hash);
		if (!got.insert(u64(c.e_addr)).second) violate("H01", "duplicate", "%s: pair %llx:%llx is in the table twice", when, (unsigned long long)h, (unsigned long long)c.e_addr);
		bool in, out; known(h, c.e_addr, b, e, ~size_t(0), in, out);
		if (out) violate("H01", "not-inserted", "%s: lookup of hash %llx returned %llx, which %s", when, (unsigned long long)h, (unsigned long long)c.e_addr, pairid->count({ h, c.e_addr }) ? "had been erased" : "was never inserted");
	}
	W->stats["lookups"]++;
	W->stats["lookups_found"] += v.size();
	for (auto &p : *pairid) {
		if (p.first.first != h || got.count(p.first.second)) continue;
		u64 a = p.first.second;
		bool in, out; known(h, a, b, e, ~size_t(0), in, out);
		if (in) violate("H01", "lost", "%s: pair %llx:%llx was inserted and not erased, its bucket never held 256 entries, and it is not found", when, (unsigned long long)h, (unsigned long long)a);
		// an entry put at the front takes 255 other changes to fall out at the end
		u64 bucket = h % nbuckets;
		for (auto &x : *ev) if (x.kind == 0 && x.h == h && x.a == a && x.e && x.e < b) {
			u64 later = 0; bool erased = false;
			for (auto &y : *ev) { if (y.h % nbuckets != bucket || (y.e && y.e < x.b) || y.b > e) continue; if (y.kind == 2) { if (y.h == h && y.a == a) erased = true; } else ++later; }
			if (!erased && later < 200) { violate("H01", "front-lost", "%s: pair %llx:%llx was put at the front of its bucket and is gone after %llu other insertions", when, (unsigned long long)h, (unsigned long long)a, (unsigned long long)later); break; }
		}
	}
}
}

int hash_harness() {
	{
		ATOMIC;
		ev = new std::vector<HE>; distinct = new std::map<u64, std::set<u64>>; pairid = new std::map<std::pair<u64, u64>, u64>;
		for (auto &f : W->faults) if (f.site == S_PREAD_HASH) lossy = true;
		HFile *f = table_file();
		nbuckets = f->data.size() / 4096;
		++hseq;
		std::map<u64, u64> fill;
		for (auto &h : W->hops) if (h.who == "init") {
			u64 a = arg(h, 0), b = arg(h, 1);
			if (pairid->count({ a, b }) || fill[a % nbuckets] >= 256) continue;
			intend(a, b); ev->push_back(HE{ 1, 1, 1, a, b });
			u64 *c = reinterpret_cast<u64 *>(f->data.data() + (a % nbuckets) * 4096) + 2 * ((fill[a % nbuckets]++ * 167 + 13) % 256);
			c[0] = a; c[1] = b;
		}
		++hseq;
		f->durable = f->data;
	}
	auto ctx = std::make_shared<BeesContext>();
	ctx->set_root_path("/simroot");
	auto ht = ctx->hash_table();
	u64 nc = 0;
	{ ATOMIC; for (auto &h : W->hops) if (isdigit(h.who[0])) nc = std::max<u64>(nc, atoi(h.who.c_str()) + 1); }
	std::vector<std::thread> th;
	for (u64 c = 0; c < nc; ++c) th.push_back(std::thread([c, ht]() {
		std::vector<HOp> st;
		{ ATOMIC; std::string me = std::to_string(c); for (auto &h : W->hops) if (h.who == me) st.push_back(h); }
		for (auto &o : st) {
			const std::string &v = o.w[0];
			u64 h = arg(o, 1), a = arg(o, 2);
			if (v == "sleep") { std::this_thread::sleep_for(std::chrono::microseconds(h)); continue; }
			if (v == "find") {
				u64 b; { ATOMIC; b = now_seq(); }
				auto r = ht->find_cell(h);
				ATOMIC;
				check_find(h, b, now_seq(), r, "during the run");
				continue;
			}
			size_t n; int kind = v == "front" ? 0 : v == "rand" ? 1 : 2;
			{ ATOMIC; n = begin(kind, h, a); }
			bool found = false;
			if (kind == 0) found = ht->push_front_hash_addr(h, a); else if (kind == 1) found = ht->push_random_hash_addr(h, a); else ht->erase_hash_addr(h, a);
			ATOMIC;
			HE &x = (*ev)[n]; x.e = now_seq();
			if (kind < 2) {
				bool in, out; known(h, a, x.b, x.e, n, in, out);
				if (found && out) violate("H01", "found", "insertion of pair %llx:%llx says that it was there already, but it was not", (unsigned long long)h, (unsigned long long)a);
				if (!found && in) violate("H01", "found", "insertion of pair %llx:%llx says that it was not there, but it was", (unsigned long long)h, (unsigned long long)a);
			}
		}
	}));
	for (auto &t : th) t.join();
	// quiet: look at everything
	std::set<u64> hashes; { ATOMIC; for (auto &p : *pairid) hashes.insert(p.first.first); }
	std::map<u64, std::set<std::pair<u64, u64>>> *mem; { ATOMIC; mem = new std::map<u64, std::set<std::pair<u64, u64>>>; }
	for (u64 h : hashes) {
		u64 b; { ATOMIC; b = now_seq(); }
		auto r = ht->find_cell(h);
		ATOMIC;
		check_find(h, b, now_seq(), r, "at the end");
		for (auto &c : r) (*mem)[h % nbuckets].insert(std::make_pair(u64(c.e_hash), u64(c.e_addr)));
	}
	{
		ATOMIC;
		for (auto &d : *distinct) {
			if (d.second.size() <= 256) continue;
			// entries are only displaced from full buckets
			u64 erases = 0; for (auto &x : *ev) if (x.kind == 2 && x.h % nbuckets == d.first) ++erases;
			u64 n = (*mem)[d.first].size();
			W->stats["full_buckets"]++;
			if (n + erases < 256) violate("H01", "shrunk", "bucket %llu holds %llu entries although more than 256 were inserted and only %llu erased", (unsigned long long)d.first, (unsigned long long)n, (unsigned long long)erases);
			if (n > 256) violate("H01", "overfull", "bucket %llu holds %llu entries", (unsigned long long)d.first, (unsigned long long)n);
		}
	}
	ht->stop_request();
	ht->stop_wait();
	ATOMIC;
	HFile *f = table_file();
	bool wfault = false; for (auto &x : W->fault_fired) if (x.first.find("pwrite_hash") != std::string::npos) wfault = true;
	if (!wfault) for (u64 b = 0; b < nbuckets; ++b) {
		std::set<std::pair<u64, u64>> fs;
		const u64 *c = reinterpret_cast<const u64 *>(f->data.data() + b * 4096);
		for (int k = 0; k < 256; ++k) if (c[2 * k] || c[2 * k + 1]) {
			if (!fs.insert({ c[2 * k], c[2 * k + 1] }).second) violate("H01", "duplicate", "pair %llx:%llx is in the file twice", (unsigned long long)c[2 * k], (unsigned long long)c[2 * k + 1]);
			if (!lossy && !(*mem)[b].count({ c[2 * k], c[2 * k + 1] })) violate("H01", "file", "pair %llx:%llx is in the file, but was not in the table when it was stopped", (unsigned long long)c[2 * k], (unsigned long long)c[2 * k + 1]);
		}
		if (!lossy) for (auto &p : (*mem)[b]) if (!fs.count(p)) violate("H01", "file", "pair %llx:%llx was in the table when it was stopped and is not in the file", (unsigned long long)p.first, (unsigned long long)p.second);
	}
	return 0;
}
