#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
NOD = "The existing tests only exercise lib/ helper classes one call at a time; nothing starts the daemon. "
p("P01", "Deduplication never changes what any file contains",
  "While bees runs, and after any crash, restart or failure of it, every file, directory, snapshot and subvolume on the filesystem has exactly the content, size, names and attributes that the other users of the filesystem gave it. This holds for files that are being written, truncated, cloned, snapshotted, renamed or deleted at the very moment bees scans, copies or deduplicates them, and for data blocks that have equal hashes but different content.",
  ["schedules","crash_points","inputs","histories","fault_sequences"],
  "every filesystem content (holes, inline, compressed, preallocated, nodatasum, zero and hash-colliding blocks, unaligned ends of file), every concurrent change by other users, every thread schedule, system-call failure and crash point",
  NOD+"Content safety is a statement about all interleavings of scanning, copying and dedupe with other writers, and about crash points.",
  ["src/bees-context.cc","src/bees-resolve.cc","src/bees-types.cc","src/bees.cc","lib/fs.cc"],
  [("dedupe only via the kernel's compare-and-share ioctl","src/bees-context.cc BeesContext::dedup, lib/fs.cc btrfs_extent_same"),("data re-read and compared before a match is used","src/bees-types.cc BeesBlockData / BeesRangePair::grow, src/bees-resolve.cc adjust_offset")],
  [("logical tree content","bytes each user wrote, independent of which extents store them","shadow copy in the simulator")], ["all file content of the simulated filesystem after every ioctl, write and crash"])
p("P02", "bees modifies nothing but its own temporary and state files",
  "The only files bees ever writes, truncates, preallocates, creates, removes, renames or changes attributes of are its own nameless temporary files and the files in its state directory. User files are opened read-only without following symlinks or leaving the filesystem, and the storage of a user file changes only through the kernel's verified same-content dedupe operation on a range that bees had just established to hold equal data.",
  ["schedules","inputs","histories","fault_sequences"],
  "every system call bees issues in any run, schedule, filesystem shape and failure",
  NOD+"Which descriptor a given call reaches depends on caches, races with deletion and reuse of inode numbers, and error paths.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-resolve.cc","src/bees-types.cc","src/bees.cc"],
  [("read-only, no-follow open flags and identity check after open","src/bees-roots.cc open_root_ino_nocache"),("copies go to tmpfiles only","src/bees.cc BeesTempFile")], observe=["open/openat2 flags","target of pwrite/ftruncate/fallocate/unlink/rename/setflags","both sides of each dedupe request"])
p("P03", "Duplicate files at rest end up sharing storage, in every scan mode",
  "When a filesystem has become quiet, then within a bounded time a second copy of data that bees already knew when it scanned the copy (same content, ordinary checksummed files, table large enough) no longer exists: the copies share one extent. This holds in every scan mode, whether the files existed before bees started or were written, cloned or snapshotted while it was running, across clean stops and restarts, and for data written after transient failures have ended; data that was changed, moved or whose scan was interrupted while bees worked on it is excepted.",
  ["schedules","inputs","histories","configurations","fault_sequences"],
  "every scan mode, worker count, placement in subvolumes/snapshots, order of arrival relative to the scan position, schedule, and finite set of transient failures",
  NOD+"It is a liveness property over whole histories of scanning; a missed wake-up or skipped range shows only in a long run.",
  ["src/bees-roots.cc","src/bees-context.cc","src/bees-hash.cc","src/bees-resolve.cc"],
  [("crawlers walk every changed extent by transid","src/bees-roots.cc BeesScanMode*/BeesCrawl"),("hash table match, resolve, dedupe","src/bees-context.cc scan_one_extent, src/bees-resolve.cc")],
  [("crawl position","root, object, offset and transid range done so far","src/bees-roots.cc BeesCrawlState")], ["extent reference map of the simulated filesystem after quiescence"])
p("P04", "bees becomes idle on an unchanging filesystem",
  "When no one else changes the filesystem, bees reaches within bounded time a state in which it issues no further dedupe or copy operations and causes no further changes, and it stays there; restarting it cleanly in that state in the same scan mode does not make it rewrite data again. It never keeps rewriting or re-deduplicating the same data for ever.",
  ["schedules","inputs","histories","configurations"],
  "every filesystem content, scan mode and schedule, with and without earlier faults",
  NOD+"Oscillation needs several scan cycles and particular sharing patterns.",
  ["src/bees-roots.cc","src/bees-context.cc","src/bees-resolve.cc"],
  [("transid range advances after each pass","src/bees-roots.cc BeesCrawl::next_transid"),("already-shared ranges and own copies are recognised","src/bees-context.cc dedup/scan_one_extent, src/bees-resolve.cc")], observe=["FILE_EXTENT_SAME, pwrite and transid activity over simulated time"])
p("P05", "Running bees to completion does not cost space",
  "When bees has finished with a filesystem that nobody else is changing and no operation failed, the data space allocated to files is not larger than before bees started (apart from data that read-only snapshots keep because bees was told not to touch them), and no temporary copy of data remains allocated that is not referenced by a user file.",
  ["schedules","inputs","configurations"],
  "every initial layout of shared, partially shared, compressed and fragmented extents, in every scan mode and schedule",
  NOD+"Splitting of extents by copying unique parts can lose space when references are left behind; depends on layout and order of scanning.",
  ["src/bees-context.cc","src/bees-resolve.cc","src/bees-roots.cc"],
  [("copy of unique parts then dedupe of all references","src/bees-context.cc rewrite_file_range, src/bees-resolve.cc replace_dst"),("tmpfile recycling","src/bees-context.cc BeesTempFile")], observe=["sum of allocated data extents before and after"])
p("P06", "No stop, crash or restart makes bees skip data it has not scanned",
  "After bees is killed or the machine crashes at any point, or bees is stopped cleanly at any point, bees eventually reads all data of all eligible files that was there when the filesystem became quiet and that no run had read before: neither a saved nor a current scan position ever passes data that was not yet processed. Every extent that nobody changed while bees worked on it is read completely, and an interrupted run's pending work is resumed after the restart.",
  ["schedules","crash_points","histories","configurations"],
  "every crash point and clean-stop point, thread schedule, number of workers and scan mode",
  NOD+"The window between dispatching an extent to a worker and saving the position is hit only by particular interleavings with a crash.",
  ["src/bees-roots.cc","include/crucible/progress.h"],
  [("position published only when all earlier work is done","src/bees-roots.cc BeesCrawl hold_state/get_state_begin, include/crucible/progress.h ProgressTracker"),("periodic and final state save","src/bees-roots.cc state_save, writeback_thread")],
  [("beescrawl.dat","durable scan positions","$BEESHOME/beescrawl.dat")], ["which blocks of which extents were ever read by a scanner"])
p("P07", "The saved scan state is replaced atomically",
  "After a crash at any point and any failed or short write, the scan state file in the state directory is a complete state that bees had earlier saved (the newest or the one before it), never a mixture, truncated or empty file, and bees starts from it again. A failed save leaves the previous state in place and is retried.",
  ["crash_points","schedules","fault_sequences"],
  "every crash point with any subset of non-synced data and directory operations lost, every failing system call of the save sequence, on btrfs and other filesystems hosting the state directory",
  NOD+"No test crashes between write, fsync and rename.",
  ["src/bees-types.cc","src/bees.cc","src/bees-roots.cc"],
  [("write temp, sync, rename","src/bees.cc BeesStringFile::write")], [("beescrawl.dat","durable scan positions","$BEESHOME/beescrawl.dat")], ["durable image of the state directory after every operation"])
p("P08", "What bees learned is on disk after a clean stop",
  "After a clean stop the hash table file holds every entry that was in the table in memory since before the stop request, and a newly started bees uses that file and never loses or replaces it: blocks recorded in earlier runs are matched with duplicates that arrive later. While bees runs, every changed part of the table reaches the file within bounded time, even if the wall clock is set, and a failed write is made up for by the next change of that part or at the stop.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of table updates with background writeback and shutdown, and transient write failures",
  NOD+"An update that races with the write of the same region is lost only under particular schedules.",
  ["src/bees-hash.cc"],
  [("dirty extents are flushed and marked clean","src/bees-hash.cc flush_dirty_extent/flush_dirty_extents, writeback_loop, stop_wait")],
  [("beeshash.dat","persistent hash table","$BEESHOME/beeshash.dat")], ["beeshash.dat at exit compared to the table in memory"])
p("P09", "A damaged or stale hash table file never does harm",
  "Whatever bytes the hash table file contains - stale, torn, random, duplicated or malicious entries - bees starts, never changes any file's content because of it, neither crashes nor hangs, and still finds duplicates of data it scans. Addresses in it that refer to data which is gone, changed, of another kind or outside the filesystem only cost time and are dropped when they are met.",
  ["inputs","crash_points","histories"],
  "every content of beeshash.dat, including tables torn by a crash and entries for deleted, relocated or metadata block groups",
  NOD+"The file is the only persistent input; the set of contents is unbounded.",
  ["src/bees-hash.cc","src/bees-resolve.cc","src/bees-context.cc"],
  [("matches are verified by reading data","src/bees-resolve.cc BeesResolver::chase_extent_ref"),("bad buckets repaired on load","src/bees-hash.cc verify_cell_range/prefetch")], [("beeshash.dat","persistent hash table","$BEESHOME/beeshash.dat")], ["process survival, file content, sharing at the end"])
p("P10", "SIGTERM or SIGINT always leads to a prompt clean exit",
  "After SIGTERM or SIGINT, at any moment and in any state of the daemon (starting, scanning, deduplicating, waiting, paused, under failing system calls), bees exits with status 0 within a bounded time, having saved its scan state and hash table. It never hangs, deadlocks or aborts on the way.",
  ["schedules","histories","fault_sequences"],
  "every moment at which the signal can arrive and every schedule of the daemon's threads from there",
  NOD+"Shutdown deadlocks depend on where each of a dozen threads is when the signal arrives.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-hash.cc","src/bees.cc","lib/task.cc"],
  [("ordered stop","src/bees-context.cc BeesContext::stop, src/bees-roots.cc stop_request/stop_wait, src/bees-hash.cc stop_request/stop_wait")], observe=["exit status, simulated time from signal to exit, state files at exit"])
p("P11", "SIGUSR1 pauses all work and SIGUSR2 resumes it",
  "After SIGUSR1 bees finishes at most the work items that were already executing and then reads, copies and deduplicates nothing until SIGUSR2, after which work continues and nothing that was pending is lost. Repeated or alternating pause and resume signals are harmless.",
  ["schedules","histories"],
  "every moment and sequence of pause and resume signals and every schedule",
  NOD+"Pausing interacts with workers that are starting, stopping and being re-balanced.",
  ["lib/task.cc","src/bees-context.cc","src/bees.cc"],
  [("pause flag","lib/task.cc TaskMasterState::pause/adjust_thread_count")], observe=["data reads, writes and dedupe calls between the signals"])
p("P12", "No failing system call kills or wedges bees",
  "Whatever errors the kernel returns for system calls on user data and trees (I/O errors, no space, no memory, stale or missing files, interrupted or short reads, dedupe refusals), bees neither exits nor crashes nor stops making progress: it skips the affected data and carries on with the rest. Once the errors stop, newly written duplicates are found again.",
  ["fault_sequences","schedules"],
  "every finite sequence of failing calls at any point of a run after start-up, combined with any schedule",
  NOD+"Error paths are not executed by any test.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-resolve.cc","src/bees-trace.cc","lib/task.cc","lib/fs.cc"],
  [("exceptions are caught per task and per loop","lib/task.cc TaskState::exec, include/crucible/error.h catch_all"),("loops retry","src/bees-roots.cc crawl_thread/writeback_thread, src/bees-hash.cc writeback_loop")], observe=["process survival, progress after last fault"])
p("P13", "With the send workaround, read-only snapshots are never touched",
  "When the btrfs-send workaround is enabled, bees does not deduplicate into, or otherwise change the storage of, any file in a subvolume that was already read-only when bees began to work on that file, whether it was created read-only or became so while bees was running, and even if the file is found through a match from another subvolume. A dedupe that the kernel refuses because a send is running is tried again later and is neither lost nor fatal, unless the workaround now forbids it.",
  ["schedules","histories","configurations"],
  "every history of subvolumes turning read-only and back, snapshots and scans, every schedule",
  NOD+"Depends on cached read-only state versus concurrent changes.",
  ["src/bees-roots.cc","src/bees-resolve.cc","src/bees-context.cc"],
  [("read-only roots rejected","src/bees-roots.cc is_root_ro/open_root_ino_nocache, workaround_btrfs_send")], observe=["destination subvolume of each dedupe call"])
p("P14", "Files without checksums or copy-on-write are left alone",
  "Files with the no-copy-on-write attribute are never the source or the destination of a dedupe or copy, in every scan mode, even when their extents are found through a hash match or share content with ordinary files. Their storage is the same after bees has run as before.",
  ["inputs","schedules","histories","configurations"],
  "every mix of nodatacow and normal files with equal content, every scan mode and schedule",
  NOD+"No test has any nodatacow file.",
  ["src/bees-roots.cc","src/bees-context.cc","src/bees-resolve.cc"],
  [("attribute check on open","src/bees-roots.cc open_root_ino_nocache")], observe=["source and destination files of each dedupe call, extent layout of nodatacow files"])
p("P15", "Extents that are slow to resolve are recognised and avoided",
  "When looking up the references of an extent costs more kernel CPU time than the toxic limit, bees remembers the extent's content as toxic and stays correct and live: it completes the scan of all other data, does not look the same address up over and over as more copies arrive, and other duplicates are still found.",
  ["inputs","schedules","fault_sequences"],
  "every placement of extents with pathological lookup cost among normal ones, and random slow lookups",
  NOD+"Needs a kernel lookup that burns seconds of CPU time.",
  ["src/bees-context.cc","src/bees-resolve.cc","src/bees-hash.cc"],
  [("toxic marking","src/bees-context.cc resolve_addr_uncached, src/bees-resolve.cc, BeesAddress::set_toxic")], observe=["number of reference lookups per slow extent, sharing of other files"])
p("P16", "bees does not keep deleted files or subvolumes alive",
  "A file, snapshot or subvolume that is deleted while bees is running is released by bees (no open descriptor or working directory keeps it) within a bounded time, even while bees is busy, and the number of descriptors bees holds stays below its configured bound and does not grow without limit over time.",
  ["schedules","histories"],
  "every moment of deletion relative to scans that have the file open, every schedule",
  NOD+"Descriptor lifetime depends on cache content and pending work.",
  ["src/bees-roots.cc","src/bees-context.cc","include/crucible/cache.h","lib/fd.cc"],
  [("caches cleared on each transid change","src/bees-roots.cc clear_caches, src/bees-context.cc BeesFdCache")], observe=["table of open descriptors over simulated time"])
p("P17", "Temporary files are nameless, bounded and recycled",
  "Temporary copies of data are only ever made in nameless files that vanish with the process; their number does not exceed the number of workers that are using them, each stays below the documented maximum size plus one extent, and when bees is idle none of them pins extents that it no longer needs for more than a bounded time.",
  ["schedules","histories","fault_sequences"],
  "every schedule, workload and failure during copying",
  NOD+"Needs many copy operations with failures in between.",
  ["src/bees.cc","src/bees-context.cc","include/crucible/pool.h"],
  [("temp file pool and realign/truncate","src/bees.cc BeesTempFile, src/bees-context.cc tmpfile pool")], observe=["size and count of temporary inodes"])
p("P18", "Reference lookups never overlap dedupe operations",
  "bees never has a lookup of an extent's references and a dedupe operation in progress in the kernel at the same time, in any thread combination, because this combination hangs the kernel; and the exclusion itself never deadlocks or starves either side for ever.",
  ["schedules"],
  "every interleaving of any number of worker threads",
  NOD+"Overlap shows only under concurrency that no test creates.",
  ["lib/multilock.cc","lib/fs.cc","src/bees-context.cc"],
  [("MultiLocker","lib/multilock.cc get_lock_private/put_lock; src/bees-context.cc, src/bees-resolve.cc callers")], observe=["enter/exit of LOGICAL_INO and FILE_EXTENT_SAME ioctls"])
p("P19", "The number of workers follows the configured limits and the load",
  "The number of tasks that bees executes at the same time never exceeds the configured thread count; with a load target it stays between the configured minimum and maximum, shrinks to the minimum within bounded time when the load stays above the target and grows again when it drops.",
  ["schedules","configurations","histories"],
  "every thread count, minimum and load target, load history and schedule",
  NOD+"Thread count adaptation is driven by time and system load.",
  ["lib/task.cc","src/bees.cc"],
  [("load tracking and thread count","lib/task.cc TaskMasterState::calculate_thread_count_nolock/adjust_thread_count/loadavg_thread_fn")], observe=["number of concurrently executing tasks over simulated time"])
p("P20", "A restart repeats only what was done since the scan position was last saved",
  "The scan position is written at least every fifteen minutes while a scan advances, and when bees is stopped by SIGTERM or SIGINT. After a restart, data which lies before the first extent (in the subvolume scan modes: the first inode) that was unfinished when the position was last due to be saved is not read again during the same pass.",
  ["histories","crash_points","schedules","configurations"],
  "every scan mode and thread count, every amount of data and speed of reading, and every history of stops, kills and machine crashes at any point of a scan that takes hours",
  NOD+"Needs a scan of many hours, interrupted at chosen points and resumed.",
  ["src/bees-roots.cc","src/bees.h"],
  [("marking the crawl state as changed","src/bees-roots.cc BeesCrawl::hold_state/set_state, BeesRoots::crawl_state_set_dirty"),("periodic and final save","src/bees-roots.cc BeesRoots::state_save/writeback_thread/stop_wait")], observe=["reads of data extents after a restart","the state file"])
p("P21", "Data is scanned once, in the order which the scan mode promises",
  "With one worker thread and a filesystem at rest: in the subvolume scan modes the files of each subvolume are read by inode number and each file from its beginning to its end; lockstep (0) takes the lowest unread inode number of all subvolumes, independent (1) takes one file of each subvolume in turn so that none waits for another, sequential (2) completes one subvolume after the other in numerical order, recent (3) is like independent but reads new data of subvolumes that have been completely read before the others go on. The extent mode (4) reads each group of extent sizes by physical address, does not let large extents wait while many smaller ones are read, and reads each extent once however many files and snapshots refer to it. Unique data is not read a second time in any mode until a restart.",
  ["inputs","histories","configurations","schedules"],
  "every layout of files, extents of all six size groups, subvolumes, reflinks and snapshots, every scan mode, new data appearing during a scan, and stops and kills on the way",
  NOD+"The order only shows over whole scans of many files in several subvolumes, interrupted and resumed, with the scan tasks and the transid poller interleaving.",
  ["src/bees-roots.cc"],
  [("the scan modes","src/bees-roots.cc BeesScanModeLockstep/Independent/Sequential/Recent::scan and next_transid"),("extents in address order by size tier","src/bees-roots.cc BeesScanModeExtent::SizeTier::find_next_extent, scan")], observe=["the first read of every data extent"])
p("P22", "Throttling delays operations to the requested rate, never longer",
  "With --throttle-factor F, each successful dedupe, back-reference lookup and extent-map lookup is followed, before its thread does anything else, by a delay which makes up the difference between its run time and F times the average run time of operations of the same kind: never more than that or 60 seconds, and (once there is enough data for an average) not much less. With factor 0 there is no delay. Time spent waiting for a lock does not count as run time, and slow operations of one kind do not delay those of another.",
  ["inputs","histories","configurations","schedules"],
  "every sequence of fast and slow operations of every kind, from any number of threads, every factor",
  NOD+"Delays depend on the history of durations over minutes of run time and on the kinds interleaving in several threads.",
  ["src/bees.cc","src/bees-context.cc","src/bees-roots.cc"],
  [("the delay","src/bees.cc bees_throttle"),("callers","src/bees-context.cc BeesContext::dedup, BeesResolver/resolve_addr_uncached; src/bees-roots.cc create_extent_map")], observe=["sleeps of bees threads after each FILE_EXTENT_SAME and LOGICAL_INO call"])
p("T01", "Every queued task runs, once per request, never twice at once",
  "Each request to run a task leads to at least one complete execution that starts after the request was made; requests made while it is queued or waiting merge into a single execution, and the same task is never executed by two workers at the same time. A failing task affects no other task, and work queued while the pool is paused or resized is neither lost nor duplicated.",
  ["schedules","histories","configurations"],
  "every concurrent sequence of run, idle, append, pause, resize and failing tasks, every schedule",
  "Unit tests run fixed task graphs under whatever interleaving the machine produces.",
  ["lib/task.cc","include/crucible/task.h"],
  [("run_now/run_again flags and queues","lib/task.cc TaskState::run/exec/append_nolock")], observe=["start and end of each task execution"])
p("T02", "Task ordering, locks and barriers keep their promises",
  "A task appended to another runs only after that one has finished its current execution, several in the order of appending (or in task order when inserted); an exclusion lock is held by at most one task at a time and every task that was turned away is run again after the lock is released and not before; a barrier runs each waiting task exactly once, after the last holder released it and not before. A multi-locker never grants two different lock types at the same time and never forgets a waiter.",
  ["schedules","histories"],
  "every interleaving of append, try_lock, release, insert and destruction, from any number of workers",
  "Unit tests cover a few fixed arrangements under one interleaving each.",
  ["lib/task.cc","include/crucible/task.h"],
  [("post-exec queues, Exclusion and Barrier","lib/task.cc append_nolock, ExclusionLock, BarrierState")], observe=["execution history of tasks under concurrent clients"])
p("C01", "Caches return one value per key and respect their size",
  "A concurrent lookup in the cache, in the name-to-object map or in the object pool never returns the value of another key or a value that was cleared before the lookup began, constructs at most one object per key at a time, reports a failing constructor to each waiting caller and retries on the next lookup, and never deadlocks; the cache never grows past its limit and makes room by dropping what was not used for the longest time. An object from the pool is handed out only after the function that prepares it for reuse has finished.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of lookups, inserts, clears, expiry and failing constructors by several threads",
  "Unit tests for named pointers use real threads with a single hard-coded pattern; the cache has none.",
  ["include/crucible/cache.h","include/crucible/namedptr.h","include/crucible/pool.h","include/crucible/lockset.h"],
  [("per-key lock then re-check","include/crucible/cache.h LRUCache::operator(), include/crucible/namedptr.h lookup_item")], observe=["history of cache operations checked against a sequential model"])
p("G01", "Progress tracking never reports unfinished work as done",
  "The low-water mark reported by the progress tracker never passes an item whose holder is still alive, and once all holders are gone it equals the highest item ever tracked, for any order of creation, copying and release from any threads.",
  ["schedules","histories"],
  "every interleaving of hold and release",
  "The unit test tries two fixed release orders in a single thread.",
  ["include/crucible/progress.h"],
  [("begin/end of the set of in-progress items","include/crucible/progress.h ProgressTracker")], observe=["begin()/end() against the set of live holders"])
p("H01", "The hash table behaves like a bounded set of hash-address pairs",
  "Concurrent inserts, lookups and erasures on the hash table behave as if executed one at a time: a looked-up entry was inserted and not erased since, an inserted entry is found until it is erased or displaced by other entries of its bucket, an erased entry is not found again, and no pair is duplicated or mixed up from two others.",
  ["schedules","histories","inputs"],
  "every interleaving of table operations with each other, with prefetch at start-up and with writeback",
  NOD+"The hash table has no unit test.",
  ["src/bees-hash.cc"],
  [("bucket lock and in-bucket shifting","src/bees-hash.cc find_cell, erase_hash_addr, push_random_hash_addr, push_front_hash_addr")], observe=["results of table operations against a model"])
p("R01", "Rate limiting and waiting follow the clock",
  "A rate limiter never lets more than its burst, plus rate times elapsed time, plus requests already in flight through, and never blocks longer than needed to restore the rate. A rate estimator's estimates stay within the configured minimum and maximum, no unit counted by any thread is lost, its waiters return only when the wanted count has been reached and soon after it has, and none of this, nor any timer's age, is disturbed by setting the wall clock.",
  ["schedules","histories"],
  "every sequence of borrow/update calls and times from several threads",
  "No test with a controllable clock exists.",
  ["lib/time.cc","include/crucible/time.h"],
  [("token arithmetic","lib/time.cc RateLimiter, RateEstimator")], observe=["simulated times of return against a model"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
