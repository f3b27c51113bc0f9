// C16: timed and background work: the thread pool, event awaiters, worker threads, asynchronous flush requests, shutdown.
#include "../run.h"
#include <string>
#include <list>
#include <functional>
#include <simple_thread_pool.h>
#include <event_awaiter.h>
#include <worker_mgr.h>
#include <libjungle/jungle.h>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <stdio.h>
#include <string.h>
using namespace sim; using namespace simple_thread_pool;
namespace {
enum { POOL, AWAIT, WORKER, ASYNC, NMODE };
enum { MAXC = 4, MAXOP = 16, MAXT = 400, MAXR = 12, MAXW = 4 };
struct Prog { uint8_t op; uint32_t a, b, c; };
struct Task { bool used, timed, recurring, accepted, cancel_ok, cancel_called; uint64_t interval, reg_ns, acc_stamp; int runs, cancels, running; uint64_t last_start_ns, last_start_stamp, cancel_ret, cancel_inv; uint64_t resched_ns; int busy_us; };
struct W {
    int mode, nc, nop[MAXC], nthreads, nworkers; uint32_t busywait; bool invoke_cancel, shutdown_busy, kind; int sleepms[MAXW];
    int maxent; int flushers, dedicated, ndb; bool comp; int fsleep; bool autosync;
    Prog prog[MAXC][MAXOP]; int nt; Task t[MAXT];
};
W& w() { return *(W*)wsh; }
const uint64_t MS = 1000000ull, SEC = 1000000000ull;
void configure() {
    Rng r(rseed(11)); W& x = w(); memset(&x, 0, sizeof x);
    int m = r.below(10); x.mode = m < 4 ? POOL : m < 6 ? AWAIT : m < 8 ? WORKER : ASYNC;
    x.nc = r.range(1, MAXC); x.nthreads = r.below(4); static const uint32_t bw[] = { 0, 1, 20, 100 }; x.busywait = r.pick(bw); x.invoke_cancel = r.onein(2); x.shutdown_busy = r.onein(2); x.kind = r.onein(2);
    x.nworkers = r.range(1, MAXW); for (int i = 0; i < MAXW; ++i) { static const int s[] = { 10, 50, 500, 2000 }; x.sleepms[i] = r.pick(s); }
    static const int me[] = { 3, 8, 100 }; x.maxent = r.pick(me); x.flushers = r.range(1, 4); x.dedicated = r.onein(2) ? 0 : r.range(1, 2); x.ndb = r.range(1, 2); x.fsleep = r.onein(2) ? 10 : 2000; x.autosync = r.onein(3);
    for (int c = 0; c < MAXC; ++c) { x.nop[c] = r.range(2, x.nc > 2 ? 8 : MAXOP); for (int i = 0; i < x.nop[c]; ++i) { Prog& p = x.prog[c][i]; p.op = r.below(16); p.a = r.next(); p.b = r.next(); p.c = r.next(); } }
    static const char* mn[] = { "thread pool", "event awaiter", "worker threads", "asynchronous flushes" };
    snprintf(ctl->desc, sizeof ctl->desc, "%s: %d clients, %d/%d operations, pool threads %d, busy wait %u us, cancelled tasks invoked %d, %d workers, %d flushers (%d dedicated), shutdown while busy %d", mn[x.mode], x.nc, x.nop[0], x.nop[1], x.nthreads, x.busywait, x.invoke_cancel, x.nworkers, x.flushers, x.dedicated, x.shutdown_busy);
}
void plan(int) {
    Rng r(rseed(1)); default_sched(r, sh->sc); W& x = w();
    if (x.mode != ASYNC) { static const double pm[] = { 0, 1e-3, 0.02 }, ps[] = { 0.02, 0.1, 0.4 }; sh->sc.p_mem = r.pick(pm); sh->sc.p_sync = r.pick(ps); }
    sh->sc.p_spurious = 0; sh->sc.max_ns = 3600ull * SEC; sh->fc.lat_base_ns = 2000; sh->fc.lat_spread_ns = 20000;
}
// ------------------------------------------------------------------ thread pool
ThreadPoolMgr* pool; std::shared_ptr<TaskHandle>* handles; bool pool_stopped;
void add_task(Rng& r, Prog& p, int depth) {
    W& x = w(); int i; { NoPreempt np; if (x.nt >= MAXT) return; i = x.nt++; }
    Task& t = x.t[i]; { NoPreempt np; t.used = true; int nrec = 0; for (int k = 0; k < i; ++k) nrec += x.t[k].recurring; t.recurring = p.a % 8 == 0 && nrec < 3; t.timed = t.recurring || p.a % 8 < 4; static const uint32_t iv[] = { 1, 50, 1000, 30000, 400000, 1500000, 5000000 }; t.interval = t.timed ? iv[p.b % 7] : 0; if (t.recurring && t.interval < 400000) t.interval = 400000; t.busy_us = p.c % 3 == 0 ? (p.c >> 4) % 40000 : 0; t.reg_ns = now_ns(); t.resched_ns = t.reg_ns; t.acc_stamp = stamp(); }
    Prog sub = p; sub.a = p.b; sub.b = p.c; sub.c = p.a; bool nest = depth < 2 && (p.c >> 20) % 6 == 0;
    auto h = pool->addTask([i, nest, sub, depth](const TaskResult& res) {
        W& x = w(); Task& t = x.t[i];
        if (res.ok()) { NoPreempt np; if (pool_stopped) violation("pool-after-shutdown", "task %d started after shutdown of the pool had returned", i);
            if (t.running) violation("pool-overlap", "task %d runs twice at the same time", i); t.running++; t.runs++; dbg("task %d runs", i);
            if (!t.recurring && t.runs > 1) violation("pool-twice", "one-time task %d ran %d times", i, t.runs); if (t.cancels) violation("pool-both", "task %d ran although its cancellation had been delivered", i);
            if (t.cancel_ok && !t.recurring) violation("pool-cancelled-ran", "task %d ran although cancel() had returned true", i);
            uint64_t el = now_ns() - t.resched_ns; if (t.timed && t.runs == 1 && el + 1000 < t.interval * 1000) violation("pool-early", "task %d with interval %llu us ran after %llu us", i, (unsigned long long)t.interval, (unsigned long long)el / 1000);
            if (t.recurring && t.runs > 1 && now_ns() - t.last_start_ns + 1000 * MS < t.interval * 1000) violation("pool-early", "recurring task %d with interval %llu us ran again after %llu us", i, (unsigned long long)t.interval, (unsigned long long)(now_ns() - t.last_start_ns) / 1000);
            if (t.recurring && t.cancel_ok && t.last_start_stamp > t.cancel_ret) violation("pool-cancelled-ran", "recurring task %d ran again and again after cancel()", i);
            t.last_start_ns = now_ns(); t.last_start_stamp = stamp(); SIM_PROBE("pool_run"); ctl->work++; }
        else { NoPreempt np; t.cancels++; if (t.cancels > 1 || t.runs) violation("pool-both", "task %d: cancellation delivered %d times, runs %d", i, t.cancels, t.runs); if (!x.invoke_cancel) violation("pool-cancel-cb", "task %d got a cancellation callback although they are switched off", i); SIM_PROBE("pool_cancel_cb"); return; }
        if (t.busy_us) sleep_ns(t.busy_us * 1000ull);
        if (nest) { Prog s2 = sub; Rng r2(s2.a); add_task(r2, s2, depth + 1); }
        { NoPreempt np; t.running--; } }, t.interval, t.recurring ? RECURRING : ONE_TIME);
    NoPreempt np; handles[i] = h; t.accepted = true; dbg("task %d added: interval %llu us, recurring %d, busy %d us", i, (unsigned long long)t.interval, t.recurring, t.busy_us);
}
void pool_client(int c) {
    char nm[16]; snprintf(nm, sizeof nm, "client%d", c); set_name(nm); W& x = w(); Rng r(rseed(100 + c));
    for (int i = 0; i < x.nop[c]; ++i) { if (!item_on(c, i)) continue; Prog& p = x.prog[c][i];
        if (p.op < 8) add_task(r, p, 0);
        else if (p.op < 11) { int n, k; std::shared_ptr<TaskHandle> h; { NoPreempt np; n = x.nt; if (!n) continue; k = p.a % n; h = handles[k]; if (!h) continue; x.t[k].cancel_called = true; x.t[k].cancel_inv = stamp(); }
            bool before; { NoPreempt np; before = x.t[k].cancel_ok; } bool ok = h->cancel(); NoPreempt np; Task& t = x.t[k];
            if (ok) { if (!t.recurring && t.runs) violation("pool-cancelled-ran", "cancel() of one-time task %d returned true although it ran", k); if (!t.recurring && before) violation("pool-cancel-twice", "cancel() of task %d returned true twice", k); t.cancel_ok = true; if (!t.cancel_ret) t.cancel_ret = stamp(); SIM_PROBE("pool_cancel_ok"); }
            else if (!t.runs && !t.cancel_ok) { bool other = false; (void)other; if (!t.cancels) { SIM_PROBE("pool_cancel_false_not_run"); } } }
        else if (p.op < 12) { int n, k; std::shared_ptr<TaskHandle> h; { NoPreempt np; n = x.nt; if (!n) continue; k = p.a % n; h = handles[k]; if (!h || !x.t[k].timed || x.t[k].recurring || x.t[k].runs) continue; }
            (void)k; h->isDone(); h->isOneTime(); }
        else sleep_ns((p.op == 12 ? 1 : p.op == 13 ? 50 : 700) * MS * (1 + p.a % 3)); }
}
void run_pool() {
    W& x = w(); handles = new std::shared_ptr<TaskHandle>[MAXT]; pool_stopped = false; pool = new ThreadPoolMgr(); ThreadPoolOptions o; o.numInitialThreads = x.nthreads; o.busyWaitingIntervalUs = x.busywait; o.invokeCanceledTask = x.invoke_cancel; pool->init(o);
    { std::vector<std::thread> th; for (int c = 0; c < x.nc; ++c) th.emplace_back(pool_client, c); for (auto& t : th) t.join(); }
    if (!x.shutdown_busy) {   // every one-time task must run within its interval, the work of the others, and a second of scheduling slack per task
        for (int i = 0; i < x.nt; ++i) { Task& t = x.t[i]; while (!t.accepted) sleep_ns(MS); dbg("waiting for task %d", i); if (t.recurring) { NoPreempt np; if (!t.cancel_ok) { handles[i]->cancel(); t.cancel_ok = true; t.cancel_ret = stamp(); } continue; }
            uint64_t lim = now_ns() + t.interval * 1000 + 2 * SEC; for (int k = 0; k < x.nt; ++k) lim += x.t[k].busy_us * 1000ull + SEC; 
            while (!t.runs && !t.cancel_ok && now_ns() < lim) sleep_ns(20 * MS);
            if (!t.runs && !t.cancel_ok) violation("pool-stuck", "task %d (interval %llu us) did not run within the bound", i, (unsigned long long)t.interval); }
        SIM_PROBE("pool_all_done"); }
    pool->shutdown();
    { NoPreempt np; pool_stopped = true; SIM_PROBE("pool_shutdown");
      for (int i = 0; i < x.nt; ++i) { Task& t = x.t[i]; if (t.running) violation("pool-after-shutdown", "task %d still runs after shutdown of the pool has returned", i); if (t.recurring || !t.accepted) continue;
        if (x.invoke_cancel && t.runs + t.cancels != 1) violation("pool-lost", "one-time task %d: ran %d times, cancellation delivered %d times, although the pool is to report cancelled tasks", i, t.runs, t.cancels); } }
    if (w().kind) { delete pool; pool = nullptr; }
    sleep_ns(3 * SEC);
    if (pool) delete pool;
    NoPreempt np; delete[] handles;
}
// ------------------------------------------------------------------ event awaiter
template <class EA> struct Chan { EA ea; std::mutex m; std::vector<int> q; std::atomic<bool> stop; int pushed, taken; Chan() : stop(false), pushed(0), taken(0) {} };
template <class EA> void run_await() {
    W& x = w(); Chan<EA>* ch = new Chan<EA>(); bool timed = x.busywait % 3 == 0; uint32_t tmo = 1 + x.busywait * 7;
    uint64_t last_inv = 0; uint64_t* li = &last_inv;
    std::thread cons([ch, timed, tmo, &x, li]() { set_name("consumer"); 
        for (;;) { uint64_t t0 = now_ns(), s0 = stamp(); uint64_t inv0; { NoPreempt np; inv0 = *li; } (void)s0;
            if (timed) { ch->ea.wait_us(tmo); NoPreempt np; if (*li == inv0 && inv0 == 0 && now_ns() - t0 + 1000 < tmo * 1000ull && !ch->stop) violation("ea-early", "wait_us(%u) returned after %llu ns without an invocation", tmo, (unsigned long long)(now_ns() - t0)); } else ch->ea.wait();
            ch->ea.reset(); std::vector<int> g; { std::lock_guard<std::mutex> l(ch->m); g.swap(ch->q); } { NoPreempt np; ch->taken += g.size(); ctl->work += g.size(); }
            if (x.prog[0][g.size() % MAXOP].a % 3 == 0) sleep_ns(x.prog[0][ch->taken % MAXOP].b % (5 * MS));
            if (ch->stop) { std::lock_guard<std::mutex> l(ch->m); if (ch->q.empty()) break; } } });
    std::vector<std::thread> th; for (int c = 0; c < x.nc; ++c) th.emplace_back([ch, c, &x, li]() { char nm[16]; snprintf(nm, sizeof nm, "producer%d", c); set_name(nm);
        for (int i = 0; i < x.nop[c]; ++i) { if (!item_on(c, i)) continue; Prog& p = x.prog[c][i]; if (p.op >= 12) { sleep_ns(p.a % (3 * MS)); continue; }
            { std::lock_guard<std::mutex> l(ch->m); ch->q.push_back(i); ch->pushed++; } { NoPreempt np; *li = stamp(); } ch->ea.invoke();
            // single-item rendezvous: the consumer must come by
            if (p.op == 0) { uint64_t lim = now_ns() + 30 * SEC; for (;;) { { std::lock_guard<std::mutex> l(ch->m); if (ch->q.empty()) break; } if (now_ns() > lim) violation("ea-lost", "an invocation was lost: the waiter did not wake within 30 seconds"); sleep_ns(MS); } } } });
    for (auto& t : th) t.join();
    uint64_t lim = now_ns() + 30 * SEC; while (ch->taken < ch->pushed) { if (now_ns() > lim) violation("ea-lost", "an invocation was lost: %d of %d items taken", ch->taken, ch->pushed); sleep_ns(MS); }
    ch->stop = true; { NoPreempt np; *li = stamp(); } ch->ea.invoke(); cons.join(); SIM_PROBE("ea_done"); delete ch;
}
// ------------------------------------------------------------------ worker threads
struct Wk; struct WkStat { int works, applied, running; uint64_t start_stamp, start_ns, end_ns; uint64_t cfg_seen; bool dead; };
WkStat wst[MAXW];
struct Wk : jungle::WorkerBase { int id; int busy;
    Wk(int i, const std::string& n, int sleepms, int b) : id(i), busy(b) { workerName = n; curOptions.sleepDurationMs = sleepms; handle = std::thread(&jungle::WorkerBase::loop, this); }
    void work() override { { NoPreempt np; WkStat& s = wst[id]; if (s.dead) violation("worker-after-destroy", "worker %d works after it was destroyed", id); if (s.running) violation("worker-overlap", "worker %d works twice at once", id); s.running = 1; s.works++; s.start_stamp = stamp(); s.start_ns = now_ns(); SIM_PROBE("worker_work"); ctl->work++; }
        if (busy) sleep_ns(busy * 1000ull); NoPreempt np; wst[id].running = 0; wst[id].end_ns = now_ns(); }
    void applyNewGlobalConfig(const jungle::GlobalConfig& g) override { NoPreempt np; if (wst[id].running) violation("worker-config", "worker %d applies a configuration in the middle of its work", id); wst[id].applied++; wst[id].cfg_seen = g.fdbCacheSize; } };
void run_worker() {
    W& x = w(); jungle::GlobalConfig g; g.globalLogPath = "/sim"; g.numFlusherThreads = 0; g.numCompactorThreads = 0; g.numTableWriters = 0; jungle::Status s = jungle::init(g); if (!s) violation("worker-init", "init failed with %d", (int)s.getValue());
    memset(wst, 0, sizeof wst); jungle::WorkerMgr* m = new jungle::WorkerMgr(); std::vector<Wk*> ws; std::vector<bool> on(x.nworkers, false);
    for (int i = 0; i < x.nworkers; ++i) { Wk* k = new Wk(i, (i % 2 ? "odd_" : "even_") + std::to_string(i), x.sleepms[i], x.prog[0][i].a % 3 ? x.prog[0][i].b % 50000 : 0); ws.push_back(k); s = m->addWorker(k); if (!s) violation("worker-add", "addWorker failed with %d", (int)s.getValue()); if (x.prog[1][i].a % 2) { uint64_t t0 = now_ns(); (void)t0; if (wst[i].works) violation("worker-early", "worker %d works before run()", i); } k->run(); on[i] = true; }
    { jungle::Status d = m->addWorker(ws[0]); if (d) violation("worker-dup", "adding a worker of the same name succeeded"); ws[0]->run(); }
    for (int c = 0; c < x.nc; ++c) for (int i = 0; i < x.nop[c]; ++i) { if (!item_on(c, i)) continue; Prog& p = x.prog[c][i]; int k = p.a % x.nworkers; Wk* wk = ws[k]; 
        auto bound = [&](int k) { return 3 * SEC + x.sleepms[k] * MS * 3; };
        if (p.op < 6 && on[k]) { uint64_t st = stamp(); if (p.op < 3) wk->invoke(); else m->invokeWorker(p.b % 2 ? wk->name() : (k % 2 ? "odd_" : "even_"), true);
            uint64_t lim = now_ns() + (x.sleepms[k] >= 2000 ? 1 * SEC : bound(k)); while (wst[k].start_stamp < st && now_ns() < lim) sleep_ns(2 * MS); if (wst[k].start_stamp < st) violation("worker-lost", "worker %d did not start working within the bound after being invoked", k); SIM_PROBE("worker_invoked"); }
        else if (p.op < 8 && on[k]) { int w0 = wst[k].works; uint64_t lim = now_ns() + bound(k); while (wst[k].works == w0 && now_ns() < lim) sleep_ns(10 * MS); if (wst[k].works == w0) violation("worker-stuck", "worker %d with period %d ms did not work within the bound", k, x.sleepms[k]); }
        else if (p.op < 10 && on[k]) { wk->stop(); on[k] = false; uint64_t lim = now_ns() + 5 * SEC; while (wst[k].running && now_ns() < lim) sleep_ns(MS); sleep_ns(5 * SEC); int w0 = wst[k].works; sleep_ns(x.sleepms[k] * MS + SEC); if (wst[k].works != w0) violation("worker-stopped", "worker %d works although it is stopped", k); SIM_PROBE("worker_stopped"); wk->run(); on[k] = true; }
        else if (p.op < 13) { jungle::GlobalConfig ng = g; ng.fdbCacheSize = 1000 + p.b % 1000; int a0[MAXW]; for (int j = 0; j < x.nworkers; ++j) a0[j] = wst[j].applied; m->updateGlobalConfig(ng); for (int j = 0; j < x.nworkers; ++j) { uint64_t lim = now_ns() + bound(j) + 3 * SEC; while (wst[j].applied == a0[j] && now_ns() < lim) sleep_ns(10 * MS); if (wst[j].applied != a0[j] + 1 || wst[j].cfg_seen != ng.fdbCacheSize) violation("worker-config", "worker %d applied the new configuration %d times", j, wst[j].applied - a0[j]); } SIM_PROBE("worker_config"); }
        else if (p.op < 14) { if (m->getWorker(wk->name()) != wk || m->getWorker("nobody")) violation("worker-get", "getWorker returned the wrong worker"); }
        else sleep_ns(p.b % (300 * MS)); }
    uint64_t t0 = now_ns(); delete m; { NoPreempt np; for (int i = 0; i < x.nworkers; ++i) { wst[i].dead = true; if (wst[i].running) violation("worker-after-destroy", "worker %d still works after the manager was destroyed", i); } }
    if (now_ns() - t0 > 60 * SEC) violation("worker-slow-stop", "stopping the workers took %llu ms", (unsigned long long)(now_ns() - t0) / 1000000);
    SIM_PROBE("worker_done"); s = jungle::shutdown(); if (!s) violation("worker-shutdown", "shutdown failed");
}
// ------------------------------------------------------------------ asynchronous flush requests
struct Req { bool ok, full; int db, count, status; bool sync_only, fsync, beyond, limited; uint64_t delay_us, acked_max, inv, done; uint64_t synced_at, flushed_at, upto; };
enum { MAXREQ = 200 }; Req* reqs; int nreq; jungle::DB* dbs[2]; std::mutex wlock[2]; uint64_t acked[2]; uint64_t written[2];
void one_request(Prog& p, int d) {
    using namespace jungle; FlushOptions o; o.syncOnly = p.a & 1; o.callFsync = p.a >> 1 & 1; o.beyondLastSync = p.a >> 2 & 1; o.execDelayUs = p.a >> 3 & 1 ? 1000 * (1 + p.b % 3000) : 0; if ((p.a >> 4) % 8 == 0) o.numFilesLimit = 1 + p.b % 3;
    int i; { NoPreempt np; if (nreq >= MAXREQ) return; i = nreq++; Req& q = reqs[i]; memset(&q, 0, sizeof q); q.db = d; q.sync_only = o.syncOnly; q.fsync = o.callFsync; q.beyond = o.beyondLastSync; q.limited = o.numFilesLimit; q.delay_us = o.execDelayUs; q.acked_max = acked[d]; q.inv = stamp(); q.upto = -1; }
    Status s = dbs[d]->flushLogsAsync(o, [i, d](Status st, void* ctx) { Req& q = reqs[i]; if (ctx != &q) violation("async-ctx", "the handler of request %d got the context of another request", i);
        uint64_t sy = 0, fl = 0; if (st) { DB* db = dbs[d]; Status a = db->getLastSyncedSeqNum(sy); Status b = db->getLastFlushedSeqNum(fl); if (a == Status::HANDLE_IS_BEING_CLOSED || b == Status::HANDLE_IS_BEING_CLOSED) sy = fl = ~0ull >> 1; else { if (!a || sy == (uint64_t)-1) sy = 0; if (!b || fl == (uint64_t)-1) fl = 0; } }
        NoPreempt np; q.count++; if (q.count > 1) violation("async-twice", "the handler of request %d ran %d times", i, q.count); q.status = st.getValue(); q.done = stamp(); q.synced_at = sy; q.flushed_at = fl; SIM_PROBE("async_done"); ctl->work++;
        if (st) { SIM_PROBE("async_ok");
            if (q.sync_only && sy < q.acked_max) violation("async-outcome", "request %d (sync only, fsync %d) of db%d reported OK although only %llu is synced and %llu had been acknowledged before the request", i, q.fsync, d, (unsigned long long)sy, (unsigned long long)q.acked_max);
            if (!q.sync_only && q.beyond && !q.limited && fl < q.acked_max) violation("async-outcome", "request %d (flush beyond the last sync) of db%d reported OK although only %llu is flushed and %llu had been acknowledged before the request", i, d, (unsigned long long)fl, (unsigned long long)q.acked_max); } }, &reqs[i]);
    NoPreempt np; reqs[i].ok = (bool)s; if (!s) { reqs[i].count = -100; violation("async-reject", "flushLogsAsync failed with %d", (int)s.getValue()); }
}
void async_client(int c) {
    using namespace jungle; char nm[16]; snprintf(nm, sizeof nm, "client%d", c); set_name(nm); W& x = w();
    for (int i = 0; i < x.nop[c]; ++i) { if (!item_on(c, i)) continue; Prog& p = x.prog[c][i]; int d = p.c % x.ndb;
        if (p.op < 6) { int n = 1 + p.b % 6; for (int k = 0; k < n; ++k) { std::string ky = "k" + std::to_string(p.a % 20), v = "v" + std::to_string(k); std::lock_guard<std::mutex> l(wlock[d]); Status s = dbs[d]->set(KV(SizedBuf(ky), SizedBuf(v))); if (!s) violation("async-set", "set failed with %d", (int)s.getValue()); NoPreempt np; acked[d]++; } }
        else if (p.op < 13) one_request(p, d);
        else if (p.op == 13) { Status s = dbs[d]->sync(p.a & 1); if (!s && s != Status::OPERATION_IN_PROGRESS) violation("async-sync", "sync failed with %d", (int)s.getValue()); }
        else sleep_ns((p.op == 14 ? 3 : 400) * MS); }
}
void run_async() {
    using namespace jungle; W& x = w(); reqs = new Req[MAXREQ]; nreq = 0; memset(acked, 0, sizeof acked);
    GlobalConfig g; g.globalLogPath = "/sim"; g.numFlusherThreads = x.flushers; g.numDedicatedFlusherForAsyncReqs = x.dedicated; g.flusherSleepDuration_ms = x.fsleep; g.numCompactorThreads = 0; g.flusherAutoSync = x.autosync; g.numTableWriters = 1;
    Status s = jungle::init(g); if (!s) violation("async-init", "init failed with %d", (int)s.getValue());
    for (int d = 0; d < x.ndb; ++d) { DBConfig c; c.lookupBoosterLimit_mb = { 0, 0 }; c.maxEntriesInLogFile = x.maxent; s = DB::open(&dbs[d], "/sim/db" + std::to_string(d), c); if (!s) violation("async-open", "open failed with %d", (int)s.getValue()); }
    { std::vector<std::thread> th; for (int c = 0; c < x.nc; ++c) th.emplace_back(async_client, c); for (auto& t : th) t.join(); }
    if (!x.shutdown_busy) for (int i = 0; i < nreq; ++i) { uint64_t lim = now_ns() + 60 * SEC; while (!reqs[i].count && now_ns() < lim) sleep_ns(50 * MS); if (!reqs[i].count) violation("async-stuck", "the handler of asynchronous request %d (delay %llu us) did not run within 60 seconds", i, (unsigned long long)reqs[i].delay_us); }
    for (int d = 0; d < x.ndb; ++d) { s = DB::close(dbs[d]); if (!s) violation("async-close", "close failed with %d", (int)s.getValue()); }
    uint64_t t0 = now_ns(); s = jungle::shutdown(); if (!s) violation("async-shutdown", "shutdown failed with %d", (int)s.getValue()); if (now_ns() - t0 > 120 * SEC) violation("async-slow", "shutdown took %llu s", (unsigned long long)((now_ns() - t0) / SEC));
    for (int i = 0; i < nreq; ++i) if (reqs[i].count != 1) violation("async-lost", "the handler of accepted asynchronous request %d (delay %llu us) ran %d times until shutdown returned", i, (unsigned long long)reqs[i].delay_us, reqs[i].count);
    SIM_PROBE("async_all"); delete[] reqs;
}
void body() { switch (w().mode) { case POOL: run_pool(); break; case AWAIT: if (w().kind) run_await<::EventAwaiter>(); else run_await<simple_thread_pool::EventAwaiter>(); break; case WORKER: run_worker(); break; default: run_async(); } }
} // namespace
sim::World world_workers = { "workers", sizeof(W), configure, plan, body, 1 };
