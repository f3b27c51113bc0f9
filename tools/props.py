"""Which simulated worlds decide which property, and what the evidence says about them."""
QUICK_SECS = 30
THOROUGH_SECS = 600
ASSUME = [
    "The simulated scheduler interleaves sequentially consistently; weak-memory reorderings are not explored.",
    "ForestDB is not in this sandbox: its API is a functional model (sim/fdb_model.cc) that stores its files on the simulated disk with commit-level atomicity and durability.",
    "The simulated disk loses, keeps or tears un-synced writes at 512-byte sectors; an fsync persists the file and all earlier directory operations; already-durable sectors never rot unless the run says so.",
]
REAL_ALL = ["all of /repo/src (DB, LogMgr, MemTable, TableMgr, flusher, compactor, reclaimer, thread pool, logger, file operations, skiplist)"]
STUB_ALL = ["ForestDB (functional model)", "kernel file system (simulated disk)", "pthreads, clocks, sleeps, malloc (simulator)"]
PROPS = {
 "C13": dict(worlds=[("fileops", 1)], real=["fileops_posix.cc", "fileops_directio.cc", "fileops_base.h"], stub=["kernel file system (simulated disk)", "clocks, sleeps, threads (simulator)"],
   rule="Random programs of append/pwrite/pread/flush/fsync/ftruncate/eof/reopen/misuse calls on 1-3 files with concurrent readers, short transfers, EINTR, EIO, ENOSPC, failed fsync, crashes and power loss with torn sectors, judged byte by byte against a model."),
 "C15": dict(worlds=[("skiplist", 1)], real=["skiplist.cc", "skiplist.h"], stub=["threads, malloc (simulator)"],
   rule="Random insert/erase/find/neighbour/iterate programs by 2-5 threads on a small key set, preempted at every atomic and sampled memory access, judged by linearizability of each history against a sorted set, and by a heap that detects use after free."),
 "C16": dict(worlds=[("workers", 1)], real=["simple_thread_pool.h", "event_awaiter.h", "generic_timer.h", "worker_mgr.cc", "flusher.cc", "db_mgr.cc"] + REAL_ALL, stub=STUB_ALL,
   rule="Thread pool with one-time, timed, recurring and cancelled tasks; event awaiters with several producers; worker threads with periods, wake-ups, stops and configuration changes; asynchronous flush and sync requests that merge, wait and meet close and shutdown. Each accepted task or handler must run exactly once, not early, with the outcome of work done after the request, and everything must finish within a bound of simulated time."),
 "C10": dict(worlds=[("logstore", 1)], real=REAL_ALL, stub=STUB_ALL,
   rule="One database in log-section mode with small log files and memtable limits: appends (automatic and rising custom numbers, batches), syncs, purges, rollbacks, reads by number, sequence iterators, manifest clones, eviction and lazy reload by the reclaimer, closes, process kills and power loss. A record-level model says for every number whether it must, may or must not be readable, and with which contents."),
 "C12": dict(worlds=[("logstore", 0.5), ("kv", 0.5)], real=REAL_ALL, stub=STUB_ALL,
   rule="Crashes with torn and partly lost writes concentrated around manifest updates, in log stores and in whole databases and database groups; and damage of exactly one copy (main or backup) of a log, table or database-group manifest between two openings. The next opening must succeed and show everything that had been made durable, nothing that never was, and must not mix up databases."),
 "C19": dict(worlds=[("logstore", 1)], real=REAL_ALL, stub=STUB_ALL,
   rule="Log stores whose log files and manifest copies are flipped, zeroed, cut, overwritten with garbage or with stale sectors between two openings. Every record shown must be one that was written, under its number; records in log files before the first damaged one must be shown; nothing may crash, hang or touch memory out of bounds (simulated heap)."),
 "C18": dict(worlds=[("logger", 1)], real=["logger.cc", "logger.h", "libstdc++ file streams"], stub=["kernel file system (simulated disk)", "the shell commands tar and rm (simulated, may fail)", "threads, clocks, malloc (simulator)"],
   rule="One or two loggers with 1-64 slots, rotation, compression and removal of old files, written by 1-4 threads at all levels (printf and stream form, callbacks, over-long messages), with concurrent flushes, level changes, the periodic flusher, stops, restarts and manager shutdown; short and interrupted writes and failing archives. The files are parsed after every flush and stop: each line exactly once, intact, in thread order, none above the level."),
}
KV_RULE = "Whole databases opened through the public API: random programs over the complete operation set (writes, batches, global batches, reads, iterators, snapshots, checkpoints, flushes, every kind of compaction, reopening), random configurations, and a history-based reference model. "
for _p, _r in {
 "C01": "After each crash (process kill, or power loss with any subset of un-synced sectors and torn writes) the recovered state must contain everything acknowledged before the last successful fsync-ing call began, also after crashes during recovery.",
 "C02": "After each crash or close the reopened contents must equal the state at some prefix of the write order that is not below the durable floor; recovery must succeed and the database must keep accepting writes.",
 "C03": "Every point read must return a value allowed by linearizability of that key's history, whatever flush, compaction, split or merge ran around it.",
 "C04": "Contents read after every flush and compaction must equal the model; each operation's effect on the contents must be nil.",
 "C05": "Each iterator must show exactly the records of one cut of the write order, in key (or sequence) order within its range, and its cursor moves must follow a model cursor.",
 "C06": "Snapshots and checkpoints must show one cut of the write order, at the promised number, and never change while held; listed checkpoints must open.",
 "C07": "No read view and no recovered state may show part of a batch; rejected batches leave nothing.",
 "C08": "No read view may show part of a global batch within a database, and a read after its return shows all of it.",
 "C09": "Numbers of acknowledged writes are unique, increase in acknowledgement order, are stable in every later reading, and the four sequence-number queries stay truthful.",
 "C11": "Each nearest-key and prefix answer must be one a linearizable sorted map could give for every key in the searched span.",
 "C17": "Clients open, close and reopen the same databases while others work; handles are shared, closing is safe, nothing leaks or is used after free (simulated heap), reopen sees all data.",
 "C20": "Performance and layout options (compression, direct I/O, bloom filters, index scans, writers, log sizes, lookup boosters) change from one opening to the next; every answer must match the option-independent model.",
}.items():
    PROPS[_p] = dict(worlds=[("kv", 1)], real=REAL_ALL, stub=STUB_ALL, rule=KV_RULE + _r)

NA = {"C14": "I/O faults are injected where Jungle handles them (file layer, log store, logger). Faults in table maintenance and manifest updates of a whole database reach ignored statuses (compaction, split, merge, DBGroup::openDB, table file open): about 10 % of the simulated runs end in a violation, the repairs are neither small nor safe, and they are too many to list one by one, so no sound quiet check of this property could be registered."}
