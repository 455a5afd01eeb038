From 4880273761094b96111afd53b25b350e26c40f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 01/14] fix: do not lose hash table changes made while an
 extent is being written

flush_dirty_extent() writes a copy of the extent without holding its lock,
and marked the extent clean afterwards.  Changes made during the write were
not in the copy, and were marked clean as well, so they reached the disk only
if the same extent happened to be changed again later.  Mark the extent clean
when the copy is made, and dirty again if the write fails.
---
 src/bees-hash.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..021427e 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,21 +119,28 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean before we release the lock, so that any
+		// change made while we are writing marks the extent dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
 		// Write the extent (or not)
-		pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);
+		try {
+			pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);
+		} catch (...) {
+			// Not written, so the extent is still dirty
+			lock.lock();
+			m_extent_metadata.at(extent_index).m_dirty = true;
+			throw;
+		}
 		BEESCOUNT(hash_extent_out);
 
 		// Nope, this causes a _dramatic_ loss of performance.
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
-- 
2.43.0


From b2f18570564c3ebfb169a0af592a94786dae8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 02/14] fix: scan a new extent allocated at the address of a
 deleted one

The recently-seen extent cache was keyed by (bytenr, offset, length), so a new
extent which reused the address of a deleted one was never scanned.  Add the
extent's generation to the key.
---
 include/crucible/extentwalker.h | 4 ++++
 lib/extentwalker.cc             | 1 +
 src/bees-context.cc             | 5 ++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/crucible/extentwalker.h b/include/crucible/extentwalker.h
index ed4c906..2cc8d38 100644
--- a/include/crucible/extentwalker.h
+++ b/include/crucible/extentwalker.h
@@ -18,6 +18,9 @@ namespace crucible {
 		off_t		m_logical_len = 0;
 		off_t		m_offset = 0;
 
+		// Transid when the extent was allocated (0 if not known)
+		uint64_t	m_generation = 0;
+
 		// fiemap flags are uint32_t, so bits 32..63 are OK for us
 
 		// no extent here
@@ -38,6 +41,7 @@ namespace crucible {
 		off_t physical_len() const { return m_physical_len; }
 		off_t logical_len() const { return m_logical_len; }
 		off_t offset() const { return m_offset; }
+		uint64_t generation() const { return m_generation; }
 		bool compressed() const;
 		uint64_t bytenr() const;
 		bool operator==(const Extent &that) const;
diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..34c5ab8 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -607,6 +607,7 @@ namespace crucible {
 					e.m_physical_len = ram;
 					e.m_logical_len = len;
 					e.m_offset = offset;
+					e.m_generation = btrfs_get_member(&btrfs_file_extent_item::generation, i.m_data);
 
 					// To maintain compatibility with FIEMAP we ignore the offset for compressed extents.
 					// At some point we'll grow out of this.
diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..9d5d3d3 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -333,13 +333,15 @@ struct BeesSeenRange {
 	uint64_t bytenr;
 	off_t offset;
 	off_t length;
+	// A new extent may be allocated at the address of a deleted one
+	uint64_t generation;
 };
 
 static
 bool
 operator<(const BeesSeenRange &bsr1, const BeesSeenRange &bsr2)
 {
-	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.offset, bsr2.length);
+	return tie(bsr1.bytenr, bsr1.offset, bsr1.length, bsr1.generation) < tie(bsr2.bytenr, bsr2.offset, bsr2.length, bsr2.generation);
 }
 
 static
@@ -413,6 +415,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 		.bytenr = e.bytenr(),
 		.offset = e.offset(),
 		.length = e.size(),
+		.generation = e.generation(),
 	};
 	static set<BeesSeenRange> s_seen;
 	if (s_seen.size() > BEES_MAX_EXTENT_REF_COUNT) {
-- 
2.43.0


From bfb61a32cff525edc7f28084ac11333a1ba85f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 03/14] fix: scan a file which ends with a hole and has the
 highest inode number of its subvol

The end of the file's extents was only noticed when the tree search found an
item of the next inode.  Without one, ExtentWalker threw an exception and the
file was never scanned.
---
 lib/extentwalker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 34c5ab8..2bf7465 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -629,6 +629,12 @@ namespace crucible {
 			}
 		}
 
+		// There is no next file if this one has the highest inode number in the subvol.
+		// The search returns fewer items than requested when there are no more extents.
+		if (sk.m_result.size() < sc_extent_fetch_max) {
+			past_eof = true;
+		}
+
 		// Plug a hole at EOF
 		if (past_eof && !rv.empty()) {
 			rv.rbegin()->m_flags |= FIEMAP_EXTENT_LAST;
-- 
2.43.0


From b7f43a27915e724e475babbbab2ba11e82796c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 04/14] fix: scan each inode with the transid range it was
 found in

crawl_one_inode read the crawl state before pop_front, which may start the
next transid cycle.  The first inode of the new cycle was then scanned with
the old transid range, so its new extents were skipped.  The saved position
was also past an inode which had been fetched but not yet scanned.
---
 src/bees-roots.cc | 28 ++++++++++++++++------------
 src/bees.h        |  5 ++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..01b0c13 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,13 +174,16 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
-	const auto this_state = this_crawl->get_state_end();
-	BEESNOTE("Crawling inode " << this_state);
-	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	BEESNOTE("Crawling inode after " << this_crawl->get_state_end());
+	BEESTRACE("Crawling inode after " << this_crawl->get_state_end());
+	// pop_front may start a new crawl with new transids, and another thread may do
+	// the same before or after.  The hold has the state this inode was found with.
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
+	const auto this_state = this_hold->get();
 	const auto subvol = this_range.fid().root();
 	const auto inode = this_range.fid().ino();
 	bool run_the_task = false;
@@ -200,17 +203,12 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
-			.m_state = bfc_state,
+			.m_hold = this_hold,
+			.m_state = this_state,
 			.m_offset = this_range.begin(),
 		});
 		BEESNOTE("Starting task " << this_range);
@@ -2472,6 +2470,11 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
+	// Hold the position of this inode before moving past it, so that no checkpoint skips it
+	auto hold_bcs = old_state;
+	hold_bcs.m_objectid = m_next_extent_data.objectid();
+	hold_bcs.m_offset = 0;
+	m_next_hold = hold_state(hold_bcs);
 	auto new_state = old_state;
 	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
@@ -2516,12 +2519,13 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	swap(hold, m_next_hold);
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..89391f5 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -530,6 +530,9 @@ class BeesCrawl {
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
 
+	// Position of m_next_extent_data, held until the caller of pop_front is done with it
+	ProgressTracker<BeesCrawlState>::ProgressHolder	m_next_hold;
+
 	BtrfsTreeObjectFetcher			m_btof;
 
 	bool fetch_extents();
@@ -540,7 +543,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0


From 153bc8665ae984db6f98ceaef6c83fa017463849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 05/14] fix: come back to a reference whose extent is locked by
 another task

When scan_forward could not get the extent lock, the file crawl went on with
the next reference and never scanned the one which had been deferred.
---
 src/bees-roots.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 01b0c13..29cb754 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1733,6 +1733,10 @@ BeesFileCrawl::scan_one_ref()
 						m_hold = new_holder;
 					} else {
 						BEESCOUNT(crawl_again);
+						// The extent is locked by another Task.  Its lock will
+						// run this Task again, so come back to this ref.
+						m_offset = bti.offset();
+						return false;
 					}
 				}
 			} else {
-- 
2.43.0


From 6dda3caacd02d52b5a08617b513867742adfdb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 06/14] fix: do not divide by zero when no part of the hash
 table was analyzed

When bees is stopped before the prefetch thread has looked at the first hash
table extent, or when none of the extents can be read, total_count is zero and
bees is killed by SIGFPE, in the former case without a clean stop.
---
 src/bees-hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 021427e..c5101e1 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -346,7 +346,7 @@ BeesHashTable::prefetch_loop()
 		graph_blob << "Kernel:  " << uname.sysname << " " << uname.release << " " << uname.machine << " " << uname.version << "\n";
 
 		graph_blob
-			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << (occupied_count * 100 / total_count) << "%)\n"
+			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << percent(occupied_count, total_count) << ")\n"
 			<< out.str() << "0%      |      25%      |      50%      |      75%      |   100% page fill\n"
 			<< "compressed " << compressed_count << " (" << percent(compressed_count, occupied_count) << ")\n"
 			<< "uncompressed " << uncompressed_count << " (" << percent(uncompressed_count, occupied_count) << ")"
-- 
2.43.0


From 3c3023375e40a8746880d706d9a1505bcd036612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 07/14] fix: look at the right block when extending a match
 forward over zeros

The source block tested for being a zero in a plain data extent was the
first block of the range instead of the block which is about to be added,
so once the temporary copy of an extent has been written to disk the
extension stops at the first hole of the copy.  All references to the
extent but the first are then only partly replaced, the original extent
stays allocated, and the data is stored twice.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..2f26a80 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -523,7 +523,7 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 		}
 
 		// Source block cannot be zero in a non-compressed non-magic extent
-		BeesAddress first_addr(first.fd(), new_first.begin());
+		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
 			BEESCOUNT(pairforward_zero);
 			break;
-- 
2.43.0


From 4a69ae5180586adaedfa9b58a6fadb251ef88e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 08/14] fix: measure elapsed time with a clock which is not set

std::chrono::high_resolution_clock is the system clock in libstdc++.  When
it was set back, a Timer measured a negative time: RateLimiter went into
debt for the length of the jump, so that the hash table was not written
for that long, and RateEstimator did not wake up its waiters.
---
 include/crucible/time.h |  8 ++++----
 lib/time.cc             | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/crucible/time.h b/include/crucible/time.h
index 5aa195f..32c0e6d 100644
--- a/include/crucible/time.h
+++ b/include/crucible/time.h
@@ -14,12 +14,12 @@ namespace crucible {
 	double nanosleep(double secs);
 
 	class Timer {
-		chrono::high_resolution_clock::time_point m_start;
+		chrono::steady_clock::time_point m_start;
 
 	public:
 		Timer();
 		double age() const;
-		chrono::high_resolution_clock::time_point get() const;
+		chrono::steady_clock::time_point get() const;
 		double report(int precision = 1000) const;
 		void reset();
 		double lap();
@@ -63,7 +63,7 @@ namespace crucible {
 		double m_max_delay;
 
 		chrono::duration<double> duration_unlocked(uint64_t relative_count) const;
-		chrono::high_resolution_clock::time_point time_point_unlocked(uint64_t absolute_count) const;
+		chrono::steady_clock::time_point time_point_unlocked(uint64_t absolute_count) const;
 		double rate_unlocked() const;
 		pair<double, double> ratio_unlocked() const;
 		void update_unlocked(uint64_t new_count);
@@ -94,7 +94,7 @@ namespace crucible {
 		void increment(uint64_t more = 1);
 
 		// Convert counts to chrono types
-		chrono::high_resolution_clock::time_point time_point(uint64_t absolute_count) const;
+		chrono::steady_clock::time_point time_point(uint64_t absolute_count) const;
 		chrono::duration<double> duration(uint64_t relative_count) const;
 
 		// Polling delay until count reached (limited by min/max delay)
diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..f10d926 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -38,14 +38,14 @@ namespace crucible {
 	}
 
 	Timer::Timer() :
-		m_start(chrono::high_resolution_clock::now())
+		m_start(chrono::steady_clock::now())
 	{
 	}
 
 	double
 	Timer::age() const
 	{
-		chrono::high_resolution_clock::time_point end = chrono::high_resolution_clock::now();
+		chrono::steady_clock::time_point end = chrono::steady_clock::now();
 		return chrono::duration<double>(end - m_start).count();
 	}
 
@@ -58,10 +58,10 @@ namespace crucible {
 	void
 	Timer::reset()
 	{
-		m_start = chrono::high_resolution_clock::now();
+		m_start = chrono::steady_clock::now();
 	}
 
-	chrono::high_resolution_clock::time_point
+	chrono::steady_clock::time_point
 	Timer::get() const
 	{
 		return m_start;
@@ -70,7 +70,7 @@ namespace crucible {
 	double
 	Timer::lap()
 	{
-		auto end = chrono::high_resolution_clock::now();
+		auto end = chrono::steady_clock::now();
 		double rv = chrono::duration<double>(end - m_start).count();
 		m_start = end;
 		return rv;
@@ -307,16 +307,16 @@ namespace crucible {
 		return duration_unlocked(relative_count);
 	}
 
-	chrono::high_resolution_clock::time_point
+	chrono::steady_clock::time_point
 	RateEstimator::time_point_unlocked(uint64_t absolute_count) const
 	{
 		auto relative_count = absolute_count - min(m_last_count, absolute_count);
 		auto relative_duration = duration_unlocked(relative_count);
-		return m_last_update.get() + chrono::duration_cast<chrono::high_resolution_clock::duration>(relative_duration);
-		// return chrono::high_resolution_clock::now() + chrono::duration_cast<chrono::high_resolution_clock::duration>(relative_duration);
+		return m_last_update.get() + chrono::duration_cast<chrono::steady_clock::duration>(relative_duration);
+		// return chrono::steady_clock::now() + chrono::duration_cast<chrono::steady_clock::duration>(relative_duration);
 	}
 
-	chrono::high_resolution_clock::time_point
+	chrono::steady_clock::time_point
 	RateEstimator::time_point(uint64_t absolute_count) const
 	{
 		unique_lock<mutex> lock(m_mutex);
@@ -353,7 +353,7 @@ namespace crucible {
 	{
 		unique_lock<mutex> lock(m_mutex);
 		auto ts = time_point_unlocked(new_count_relative + m_last_count);
-		auto delta_dur = ts - chrono::high_resolution_clock::now();
+		auto delta_dur = ts - chrono::steady_clock::now();
 		return max(min(chrono::duration<double>(delta_dur).count(), m_max_delay), m_min_delay);
 	}
 
@@ -362,7 +362,7 @@ namespace crucible {
 	{
 		unique_lock<mutex> lock(m_mutex);
 		auto ts = time_point_unlocked(new_count_absolute);
-		auto delta_dur = ts - chrono::high_resolution_clock::now();
+		auto delta_dur = ts - chrono::steady_clock::now();
 		return max(min(chrono::duration<double>(delta_dur).count(), m_max_delay), m_min_delay);
 	}
 
-- 
2.43.0


From 3139a808f56a8c77d752c9b0dec3a4038480e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 09/14] fix: TaskMaster: replace worker threads that left when
 they are needed again

A worker thread decides to exit while it holds the TaskMaster lock, but
releases it before it removes itself from the set of threads.  All of the
workers can decide to leave at the same time because each sees too many
threads, and if the pool is unpaused while workers are still leaving, no
new threads are created.  In both cases the pool is left with fewer
workers than configured (possibly none) until another Task is queued, and
Tasks which are already queued are not executed.

Start the missing threads, if any, when a thread has removed itself.
---
 lib/task.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index 2507285..a5d2e0b 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -939,6 +939,12 @@ namespace crucible {
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
 		master_copy->m_condvar.notify_all();
+
+		// We may no longer be one of too many threads, or no longer be
+		// paused, if things changed after we decided to leave the loop
+		// (other threads may have left for the same reason as us).
+		// Nobody else will replace us until a new Task is queued.
+		master_copy->start_threads_nolock();
 	}
 
 	TaskConsumer::TaskConsumer(const shared_ptr<TaskMasterState> &tms) :
-- 
2.43.0


From acaa91b9d2c3c126f76bcd857f80c9c49bc85a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 10/14] fix: don't keep a temporary file open for ever when
 setting its size fails

The constructor registered the new file in the table of temporary files
before it set the initial size.  When that failed the destructor did not
run, so that the table kept the file, and with it a descriptor, for the
life of the process, once for each attempt.
---
 src/bees.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 39f57ea..75f37a9 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -565,6 +565,10 @@ BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
 	DIE_IF_MINUS_ONE(m_fd = openat(m_ctx->root_fd(), ".", FLAGS_OPEN_TMPFILE, S_IRUSR | S_IWUSR));
 	BEESCOUNT(tmp_create);
 
+	// Set initial size.  If this fails the destructor doesn't run, so do it
+	// before anything else refers to the file and keeps it open.
+	reset();
+
 	// Don't include this file in new extent scans
 	m_ctx->blacklist_insert(BeesFileId(m_fd));
 
@@ -573,9 +577,6 @@ BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
 
 	// Count time spent here
 	BEESCOUNTADD(tmp_create_ms, create_timer.age() * 1000);
-
-	// Set initial size
-	reset();
 }
 
 void
-- 
2.43.0


From 171fcdaf7324b7fd6ec7db4b7a2b0a8d43ddc10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 11/14] fix: check for a read-only destination again after
 waiting for btrfs send

---
 src/bees-context.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index 9d5d3d3..945930a 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -272,6 +272,11 @@ BeesContext::dedup(const BeesRangePair &brp_in)
 				BEESNOTE("dedup waiting for btrfs send on " << brp.second);
 				BEESLOGDEBUG("dedup waiting for btrfs send on " << brp.second);
 				roots()->wait_for_transid(1);
+				// The subvol may have been made read-only for the send we were waiting for
+				if (is_root_ro(brp.second.fid().root())) {
+					BEESCOUNT(dedup_workaround_btrfs_send);
+					return false;
+				}
 			} else {
 				throw;
 			}
-- 
2.43.0


From 25d7bb4aa8ae8651fabb6f66ce274563778e0a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 12/14] fix: don't replace the hash table with an empty one
 when it can't be opened

---
 src/bees-hash.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index c5101e1..3f1c9d7 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -715,8 +715,12 @@ BeesHashTable::open_file()
 	// Try to open existing hash table
 	Fd new_fd = openat(m_ctx->home_fd(), m_filename.c_str(), FLAGS_OPEN_FILE_RW, 0700);
 
-	// If that doesn't work, try to make a new one
+	// If there isn't one, try to make a new one.
+	// If there is one but we can't open it, don't replace it with an empty one.
 	if (!new_fd) {
+		if (errno != ENOENT) {
+			THROW_ERRNO("openat '" << m_filename << "'");
+		}
 		string tmp_filename = m_filename + ".tmp";
 		BEESNOTE("creating new hash table '" << tmp_filename << "'");
 		BEESLOGINFO("Creating new hash table '" << tmp_filename << "'");
-- 
2.43.0


From 66cc515690aff73722681f6f520cc846adeef873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 13/14] fix: start the scan of new snapshots where the oldest
 queued work started

---
 src/bees-roots.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 29cb754..12a9cbb 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1581,7 +1581,9 @@ BeesRoots::transid_min()
 		// They will not advance until the workaround is removed or they are set read-write.
 		catch_all([&](){
 			if (!is_root_ro(i.first)) {
-				rv = min(rv, i.second->get_state_end().m_min_transid);
+				// Use the begin state:  a new snapshot may hold the only remaining reference
+				// to an extent that is still queued for scanning from another subvol.
+				rv = min(rv, i.second->get_state_begin().m_min_transid);
 			}
 		});
 		last_root = i.first;
-- 
2.43.0


From d477a0e4a8fb07a7a2ff1cf83a9122ae18758f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 14/14] fix: save the scan position while the extent scan
 advances

The extent scan mode moved its position with hold_state only, which didn't mark
the crawl state as changed.  The position was written when a scan cycle started
and then not again until it ended, so a restart repeated the whole cycle.
---
 src/bees-roots.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 12a9cbb..edf0278 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2550,6 +2550,7 @@ BeesCrawl::get_state_end() const
 ProgressTracker<BeesCrawlState>::ProgressHolder
 BeesCrawl::hold_state(const BeesCrawlState &bcs)
 {
+	m_ctx->roots()->crawl_state_set_dirty();
 	return m_state.hold(bcs);
 }
 
-- 
2.43.0

