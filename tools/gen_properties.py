#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Synced writes survive any crash",
  "Once a sync with fsync (sync, checkpoint, or an asynchronous sync/flush request that asked for fsync) has reported success, every write that had been acknowledged before that call began is still readable, with its latest value, after a crash at any later moment and a reopen. This holds no matter which un-synced file writes the crash loses, keeps or tears, how often the process crashes again while recovering, and whatever flushes, log rollovers or compactions were running.",
  ["crash_points", "schedules", "fault_sequences", "configurations"],
  "for every interleaving of writers, syncs and background work, every crash point (each file operation and each scheduling step) and every loss/tear pattern of un-synced data",
  "The unit tests close the database normally or copy files at a few fixed moments; none loses un-synced page-cache data, tears a write or crashes in the middle of a manifest update or log rollover.",
  ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/log_manifest.cc", "src/flusher.cc", "src/fileops_posix.cc", "src/fileops_directio.cc", "src/table_manifest.cc"],
  [("sync of every dirty log file, then manifest", "src/log_mgr.cc LogMgr::syncInternal"), ("log recovery scan", "src/memtable.cc MemTable::load / src/log_mgr.cc LogMgr::init"), ("fsync request merging", "src/flusher.cc FlusherQueue")],
  ["DB::sync, DB::checkpoint, DB::flushLogsAsync results; DB::get after reopen"])

p("C02", "Crash recovery restores a clean prefix of the write history",
  "After a crash at any point, reopening the database succeeds and its contents equal the result of applying some prefix (in sequence-number order) of the writes ever issued: nothing out of order, nothing torn or invented, no deleted key resurrected. Reopening after a normal close yields exactly the contents at the time of the close, and the reopened database accepts and keeps new writes.",
  ["crash_points", "schedules", "histories", "configurations"],
  "for every history of writes, deletes, flushes, compactions and restarts, every crash point including during recovery, and every loss/tear pattern of un-synced data",
  "Tests reopen after clean closes and a handful of hand-made truncations; the order in which files, manifests and table files reach the disk relative to a crash is never varied.",
  ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/log_manifest.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_set_batch.cc"],
  [("log file load and tail truncation", "src/log_mgr.cc LogMgr::init, src/memtable.cc MemTable::load"), ("log removed only after table commit", "src/log_mgr.cc LogMgr::flush"), ("table manifest recovery", "src/table_manifest.cc TableManifest::load")],
  ["DB::open result; DB::get and iterators after reopen"])

p("C03", "Point reads and writes are linearizable during background work",
  "Every get, set and delete issued by concurrent threads appears to take effect atomically at one moment between its call and its return: a read returns the value of the most recent write in one such order and never a stale, missing, mixed or invented value. Concurrent syncs, flushes, log rollovers, compactions, splits and merges never make an acknowledged write temporarily or permanently invisible.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of client operations with each other and with the flusher, compactors, writers and log reclaimer",
  "mt_test and the stress tests sample whatever schedules the OS happens to produce and compare only final contents; the windows between publishing a table and dropping the log, or between levels, are a few instructions wide.",
  ["src/jungle.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc", "src/skiplist.cc", "src/table_mgr.cc", "src/table_file.cc", "src/table_lookup_booster.h", "src/bloomfilter.cc"],
  [("log then table lookup order", "src/jungle.cc DB::get*"), ("visibility via max sequence number", "src/memtable.cc MemTable::updateMaxSeqNum"), ("reference counts on log and table files", "src/log_manifest.cc, src/table_mgr.cc")],
  ["DB::get, DB::getRecordByKey, DB::set*, DB::del*"])

p("C04", "Flush and compaction never change logical contents",
  "Flushing, level-0 and inter-level compaction, in-place compaction, split, merge and level extension, in any order and concurrency, leave the set of live key/value/metadata triples exactly as it was. This also holds when such an operation is cancelled, fails part way or is cut off by a crash: afterwards, and after any reopen, nothing is lost, duplicated or resurrected.",
  ["histories", "schedules", "crash_points", "configurations"],
  "for every sequence of writes and maintenance operations over every table layout reachable with small level/table size limits, and every crash point inside one",
  "compaction_test and level_extension_test run fixed sequences to completion, one maintenance job at a time, on a few layouts, without interruption.",
  ["src/table_set_batch.cc", "src/table_compaction.cc", "src/table_split.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_writer.cc", "src/table_compact_condition.cc", "src/table_file_compaction.cc", "src/compactor.cc"],
  [("source tables kept until destination committed", "src/table_compaction.cc, src/table_split.cc"), ("table status and range bookkeeping", "src/table_manifest.cc"), ("tombstone handling", "src/table_file_compaction.cc, src/table_set_batch.cc")],
  ["full iteration and point reads before/after DB::flushLogs, compactL0, compactLevel, compactInplace, splitLevel, mergeLevel, compactIdxUpto"])

p("C05", "Iterators show one consistent, ordered snapshot",
  "An iterator returns exactly the records of one moment between the start and end of its initialisation, restricted to its range, in strictly increasing key order (or sequence order, including tombstones, for sequence iterators), each once, whatever is written, flushed or compacted meanwhile. Every mix of next, prev, seek, gotoBegin and gotoEnd positions it as on a sorted list of those records.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every content split over log files and table levels, every range, every movement sequence, and every interleaving with writers and maintenance",
  "key_itr_test and seq_itr_test walk a few fixed layouts mostly in one direction; iterator_stress_test checks ordering under whatever schedule occurs, not isolation.",
  ["src/iterator.cc", "src/log_iterator.cc", "src/memtable_iterator.cc", "src/table_iterator.cc", "src/table_file_iterator.cc", "src/avltree.cc"],
  [("merge of log and table cursors", "src/iterator.cc"), ("chained memtable cursors", "src/log_iterator.cc"), ("table-level merge", "src/table_iterator.cc")],
  ["Iterator::init/initSN/get/next/prev/seek/seekSN/gotoBegin/gotoEnd"])

p("C06", "Snapshots and checkpoints stay frozen and reopenable",
  "A snapshot, opened on the latest image or on a checkpoint number, always returns exactly the contents as of that moment through every read path, however much is written, flushed, compacted or removed afterwards, until it is closed. A checkpoint reported by the system opens to the contents at its sequence number, also after restart, as long as it is listed, and it stays listed until newer checkpoints push it out (at most maxKeepingCheckpoints are kept) or a compaction rewrites the level-0 tables it lives in.",
  ["schedules", "histories", "crash_points", "configurations"],
  "for every interleaving of snapshot open/read/close with writes, flushes, compactions and checkpoint rotation, and across restarts",
  "snapshot_test opens snapshots in quiescent states and compares against a fixed set of keys.",
  ["src/jungle.cc", "src/db_mgr.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/table_mgr.cc", "src/table_file.cc", "src/db_manifest.cc"],
  [("snapshot of log and table lists", "src/log_mgr.cc openSnapshot, src/table_mgr.cc openSnapshot"), ("reference counting of files held by snapshots", "src/log_manifest.cc, src/table_manifest.cc")],
  ["DB::openSnapshot, DB::checkpoint, DB::getCheckpoints and reads/iterators on the snapshot"])

p("C07", "Batches are atomic",
  "A record batch is all-or-nothing: no concurrent reader, iterator or snapshot ever observes only part of it, and after a crash either all of its records or none are present. A batch that is rejected leaves no trace.",
  ["schedules", "crash_points", "histories", "configurations"],
  "for every interleaving of a batch with readers, iterators, snapshots, syncs, log rollovers and flushes, and every crash point and tear pattern",
  "atomic_batch_test checks one batch against readers at one debug-callback point and a clean reopen.",
  ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/memtable_iterator.cc", "src/log_iterator.cc"],
  [("batch status per memtable record and visible-sequence barrier", "src/log_mgr.cc LogMgr::setMulti, src/memtable.cc"), ("batch kept in one log file", "src/log_mgr.cc")],
  ["DB::setRecordBatch with DB::get, Iterator, DB::openSnapshot and reopen"])

p("C08", "Global batches are atomic across databases",
  "A batch spanning several databases becomes visible as one unit in each database and is applied completely in all of them or in none when it reports failure; concurrent batches over overlapping sets of databases are serialised in one common order and never deadlock.",
  ["schedules", "histories"],
  "for every interleaving of overlapping global batches, single-database writes, syncs and flushes over two or three databases",
  "The existing tests execute one global batch at a time.",
  ["src/global_batch.cc", "src/log_mgr.cc", "include/libjungle/global_batch.h"],
  [("lock acquisition in path order and deferred visibility", "src/global_batch.cc GlobalBatchExecutor::execute")],
  ["GlobalBatch::execute with reads of every participating DB"])

p("C09", "Sequence numbers are unique, increasing and truthful",
  "Every acknowledged write owns a unique sequence number that grows in acknowledgement order and keeps growing across flushes, restarts and crashes; looking a record up by its sequence number while it is in the log returns exactly the record written under it. The reported minimum, maximum, last-synced and last-flushed sequence numbers are never ahead of what was actually written, synced or flushed, and last-synced and last-flushed never move backwards while the database is open.",
  ["schedules", "histories", "crash_points", "configurations"],
  "for every interleaving of automatic, custom-numbered and batch writes with rollovers, syncs, flushes, restarts and crashes",
  "The tests assert these numbers after single-threaded sequences.",
  ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/memtable.cc", "src/jungle.cc", "src/table_mgr.cc"],
  [("sequence assignment under the write lock", "src/log_mgr.cc LogMgr::setSN"), ("sync/flush markers", "src/log_file.cc, src/memtable.cc")],
  ["DB::getRecord, DB::getSN, DB::getMaxSeqNum, getMinSeqNum, getLastSyncedSeqNum, getLastFlushedSeqNum"])

p("C10", "A log store keeps exactly the un-purged, un-rolled-back records",
  "In log-section mode every acknowledged record that has not been purged or rolled back can be read by sequence number, individually and by iteration, whether or not its in-memory image was evicted and reloaded; purging up to a number removes only records at or below it and rolling back to a number removes exactly those above it. Iterators and snapshots that do not span a rollback show exactly the records of their moment. A clone of the manifest opened read-only shows the records of the moment it was taken.",
  ["schedules", "histories", "crash_points", "configurations"],
  "for every interleaving of appends, syncs, purges, rollbacks, reads, iterator scans, log reclaiming and restarts, for every log file size and memtable-keeping limit",
  "log_reclaim tests use long real sleeps and a few fixed sequences; eviction racing with a reader, or a crash between removing files and updating the manifest, is not driven.",
  ["src/log_mgr.cc", "src/log_file.cc", "src/log_manifest.cc", "src/memtable.cc", "src/log_reclaimer.cc", "src/log_iterator.cc", "src/jungle.cc"],
  [("purge = flush in log-section mode", "src/log_mgr.cc LogMgr::flush"), ("eviction and lazy reload", "src/log_manifest.cc reclaimExpiredLogFiles, src/log_file.cc loadMemTable"), ("rollback", "src/log_mgr.cc LogMgr::rollback")],
  ["DB::getRecord/getSN, Iterator::initSN, DB::flushLogs, DB::rollback, DB::cloneManifest"])

p("C11", "Nearest-key and prefix searches are exact",
  "A nearest-key search returns the record that a sorted list of the current records would return for that key and direction (or not-found exactly when the list has none), and a prefix search delivers the newest record of every matching key until told to stop. Neither depends on which log file, table or level the records happen to be in.",
  ["inputs", "histories", "schedules", "configurations"],
  "for every distribution of keys and tombstones over log files, level-0 partitions and deeper tables, every probe key and direction, with flushes and compactions interleaved",
  "nearest_search_test covers a few layouts built in one order.",
  ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc", "src/skiplist.cc"],
  [("merge of log and table candidates", "src/jungle.cc DB::getNearestRecordByKey"), ("per-log-file candidate selection", "src/log_mgr.cc"), ("per-table candidate selection", "src/table_mgr.cc getNearest")],
  ["DB::getNearestRecordByKey, DB::getRecordsByPrefix"])

p("C12", "Metadata updates are crash-atomic and self-checking",
  "A crash or torn write during any update of the database's manifest files (log, table and database-group manifests) leaves the database openable with metadata that matches a state it really had, at least as new as the last successful update that was made durable. Damage to one copy of a manifest is detected and repaired from its backup, never silently believed.",
  ["crash_points", "fault_sequences", "histories"],
  "for every sequence of manifest updates, every crash point inside one, every tear pattern, and every damaged byte range in one copy",
  "custom_mani_verifier and corruption_test damage a manifest in one or two fixed ways after a clean shutdown.",
  ["src/log_manifest.cc", "src/table_manifest.cc", "src/db_manifest.cc", "src/internal_helper.cc", "src/internal_helper.h", "src/crc32.cc"],
  [("CRC footer and backup file", "src/log_manifest.cc store/load, src/internal_helper.cc BackupRestore"), ("serializer over file handle", "src/internal_helper.cc RwSerializer")],
  ["DB::open and contents after damage; manifest classes' store/load"])

p("C13", "File layer reads back what was written and fsync means durable",
  "Through either file implementation (buffered or direct I/O), every append, positional write and truncate that reports success is reflected exactly by later reads, file sizes and a reopen, despite short reads/writes, interrupted calls and transient errors; a failing call reports an error. After a successful fsync all earlier successful writes survive a power loss.",
  ["fault_sequences", "crash_points", "inputs"],
  "for every sequence of file operations with arbitrary sizes and offsets, every pattern of short/failed/interrupted system calls and every crash point",
  "fileops_test and fileops_directio_test exercise the happy path on a real file system, which never returns short counts or loses cached data.",
  ["src/fileops_posix.cc", "src/fileops_directio.cc", "src/fileops_base.h", "src/fileops_posix.h", "src/fileops_directio.h", "src/internal_helper.cc"],
  [("retry loops", "src/fileops_posix.cc, src/fileops_directio.cc"), ("aligned buffer and tail padding", "src/fileops_directio.cc"), ("serializer", "src/internal_helper.cc RwSerializer")],
  ["FileOps::open/append/pread/pwrite/flush/fsync/ftruncate/eof/read/write, RwSerializer"])

p("C14", "I/O errors are reported, contained and recovered from",
  "When file operations fail (I/O error, full disk, failed fsync, short write), every database call either reports an error or has its full effect: no call that returned OK loses its data, data acknowledged or synced before stays readable, and the process neither crashes nor hangs. When the faults stop, a later sync succeeds and makes all acknowledged writes durable.",
  ["fault_sequences", "schedules", "crash_points"],
  "for every placement and duration of log- and manifest-file faults relative to writes, syncs and flushes",
  "No existing test makes a system call fail.",
  ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/log_manifest.cc", "src/fileops_posix.cc", "src/fileops_directio.cc", "src/flusher.cc"],
  [("status propagation", "src/log_mgr.cc syncInternal, src/memtable.cc flush"), ("retry of un-synced records", "src/memtable.cc, src/log_file.cc")],
  ["return codes of DB::set/sync/checkpoint/flushLogs; contents while running and after crash + reopen"])

p("C15", "The concurrent ordered index is linearizable and memory-safe",
  "Concurrent inserts, erases, exact and neighbour lookups and bidirectional iteration on the in-memory ordered index behave like the same operations on one sorted set executed atomically in some order consistent with real time. A node is never freed while any thread still holds it, and no element is lost or duplicated.",
  ["schedules", "inputs"],
  "for every interleaving, at the granularity of single memory accesses, of several threads' operations on few, colliding keys",
  "No unit test drives the list concurrently; real-hardware stress rarely lands a preemption between two link updates.",
  ["src/skiplist.cc", "src/skiplist.h", "src/memtable.cc", "src/log_manifest.cc"],
  [("per-node link validation, marking and ref-counts", "src/skiplist.cc")],
  ["skiplist_insert/erase_node/find/find_greater_or_equal/next/prev and their users"])

p("C16", "Background and timed work runs exactly once and always makes progress",
  "Every accepted asynchronous request invokes its handler exactly once, with the outcome of work done after the request, also when requests are merged, delayed, fail or the database is closed; a timed task runs once and not before its time unless cancelled. Waits, wake-ups, background flushes, compactions and shutdown finish within a bounded time once nothing blocks them.",
  ["schedules", "fault_sequences", "configurations"],
  "for every interleaving of requesters, workers, timers, clock jumps and close/shutdown",
  "Tests issue a few async flushes and sleep for wall-clock seconds; lost wake-ups and merge races depend on the exact schedule.",
  ["src/flusher.cc", "src/compactor.cc", "src/worker_mgr.cc", "src/event_awaiter.h", "src/simple_thread_pool.h", "src/log_reclaimer.cc", "src/db_mgr.cc", "src/table_writer.cc"],
  [("request queue and merge", "src/flusher.cc FlusherQueue"), ("worker sleep/wake", "src/worker_mgr.cc, src/event_awaiter.h"), ("delayed tasks", "src/simple_thread_pool.h")],
  ["DB::flushLogsAsync handlers, ThreadPoolMgr tasks, time to completion of DB::close and DB::shutdown"])

p("C17", "Open, close and shutdown are safe under concurrency",
  "Any mix of opening, closing and reopening databases and snapshots from several threads, in any state of background activity, completes without crash, use of freed or out-of-bounds memory, deadlock, or writing to a closed database's files; shared handles stay valid until the last close. After a close every acknowledged write is present on the next open.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of lifecycle calls with each other and with flusher, compactor, reclaimer and asynchronous requests",
  "Tests open and close from one thread with background work idle.",
  ["src/db_mgr.cc", "src/jungle.cc", "src/db_group.cc", "src/flusher.cc", "src/compactor.cc", "src/log_reclaimer.cc", "src/log_mgr.cc", "src/table_mgr.cc"],
  [("handle map and reference counts", "src/db_mgr.cc"), ("background-task counter", "src/db_internal.h incBgTask/decBgTask"), ("wait in destructor", "src/jungle.cc DB::~DB")],
  ["DB::open/close/shutdown/openSnapshot/close; simulated heap; simulated disk"])

p("C18", "The logger keeps every line once, intact and in order",
  "Every log message at or below the configured level appears exactly once and unmangled in the log files, messages of one thread in the order they were issued, also across file rotation and concurrent loggers, once the logger has been flushed or stopped. Logging never blocks its caller indefinitely, and messages above the level never appear.",
  ["schedules", "inputs", "configurations"],
  "for every interleaving of logging threads with the logger's flush thread, rotation, compression/reclaim and shutdown",
  "There is no unit test of the logger in this repository.",
  ["src/logger.cc", "src/logger.h"],
  [("ring of per-slot states (clean/writing/dirty/flushing)", "src/logger.cc SimpleLogger::LogElem"), ("flush thread", "src/logger.cc SimpleLoggerMgr")],
  ["contents of the log files"])

p("C19", "Damaged data is never returned as valid",
  "If bytes of a log file or manifest on disk are altered or cut off, opening and reading never returns a record that was not written: each affected record is either absent or reported as an error, and records in log files before the first damaged one remain readable. The process does not crash, hang or over-read because of damaged bytes.",
  ["inputs", "fault_sequences", "histories"],
  "for every position, length and kind (flip, zero, truncate, garbage, stale sector) of damage to log files and log manifests of any history",
  "corruption_test damages a few fixed offsets.",
  ["src/memtable.cc", "src/log_file.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/crc32.cc", "src/internal_helper.cc"],
  [("per-record checksums and length checks", "src/memtable.cc MemTable::loadRecord"), ("manifest checksum", "src/log_manifest.cc")],
  ["DB::open, DB::getSN, DB::get, iterators after damage"])

p("C20", "Results do not depend on performance and layout options",
  "Compression, direct I/O, bloom filters, lookup boosters, hash partition count, log and table size limits, parallel writers, sequence index, custom comparators and prefix hashing change cost, never the outcome of reads, writes, iteration or recovery; a database may be reopened with other values of those options and still returns the same data.",
  ["configurations", "histories", "schedules"],
  "for every combination of option values, on the same operation history, including changing them across restarts",
  "Each option has its own small test in an otherwise default configuration.",
  ["src/log_mgr.cc", "src/table_file.cc", "src/table_mgr.cc", "src/bloomfilter.cc", "src/table_lookup_booster.h", "src/db_config.cc", "src/fileops_directio.cc", "src/memtable.cc", "include/libjungle/db_config.h"],
  [("option handling throughout", "include/libjungle/db_config.h")],
  ["all read and write APIs under randomly combined configurations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
