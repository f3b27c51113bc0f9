// C13: the file layer (FileOpsPosix, FileOpsDirectIO) on the simulated disk, against a byte-accurate model.
#include "../run.h"
#include <fileops_posix.h>
#include <fileops_directio.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <thread>
#include <vector>
using namespace sim; using namespace jungle;
namespace {
enum { NF = 3, CAP = 49152, MAXOP = 48, MAXINC = 3, NR = 2 };
enum OpT : uint8_t { APPEND, PWRITE, PREAD, FLUSH, FSYNC, TRUNC, EOFQ, REOPEN, EXISTQ, READALL, MISUSE, NOPS };
struct Prog { uint8_t type, file; uint32_t a, b; uint64_t salt; };
struct FileM {
    bool direct; uint32_t bufsz; int impl;
    bool exists, must_exist;
    uint32_t len; bool len_known;       // logical end (direct: may be followed by padding up to padlen)
    uint32_t flushed;                    // bytes guaranteed to be visible to reads
    uint8_t cur[CAP], cert[CAP];         // current value; 1 = known
    uint8_t dur[CAP], dcert[CAP]; uint32_t dmin;
};
struct W {
    int nf, nop[MAXINC], weights[NOPS], ninc, nreaders; int fault_mode; bool crash[MAXINC]; uint64_t total_bound;
    Prog prog[MAXINC][MAXOP]; FileM f[NF];
    uint64_t in_flight;   // op index+1 while a mutating call is running
};
W& w() { return *(W*)wsh; }
FileOps* ops[NF]; FileHandle* hd[NF];
volatile bool stop_readers;
void path(int i, char* b) { snprintf(b, 64, "/sim/fo%d/log0000_%08d", i, i); }
bool transient() { return w().fault_mode == 1; }
bool nofault() { return w().fault_mode == 0; }

void configure() {
    Rng r(rseed(21)); W& x = w(); memset(&x, 0, sizeof(W));
    x.nf = r.range(1, NF); x.ninc = r.range(1, MAXINC); x.nreaders = r.onein(2) ? r.range(1, NR) : 0;
    int fm = r.below(10); x.fault_mode = fm < 3 ? 0 : fm < 6 ? 1 : 2;   // none, isolated transient, bursts
    for (int i = 0; i < NOPS; ++i) x.weights[i] = r.onein(4) ? 0 : r.range(1, 6);
    x.weights[APPEND] = r.range(3, 12); x.weights[PREAD] += 2; x.weights[REOPEN] = r.below(3); x.weights[MISUSE] = r.below(2);
    for (int i = 0; i < x.nf; ++i) { static const uint32_t bs[] = { 1024, 2048, 4096, 16384 }; x.f[i].direct = r.onein(2); x.f[i].bufsz = r.pick(bs); x.f[i].len_known = true; }
    for (int k = 0; k < x.ninc; ++k) { x.crash[k] = k + 1 < x.ninc ? r.chance(0.8) : false;
        x.nop[k] = r.range(4, MAXOP); int s = 0; for (int i = 0; i < NOPS; ++i) s += x.weights[i];
        for (int i = 0; i < x.nop[k]; ++i) { int v = r.below(s), t = 0; while (v >= x.weights[t]) v -= x.weights[t++];
            Prog& p = x.prog[k][i]; p.type = t; p.file = r.below(x.nf); p.salt = r.next();
            switch (r.below(6)) { case 0: p.a = r.range(1, 16); break; case 1: p.a = 512 * r.range(1, 9); break; case 2: p.a = 512 * r.range(1, 9) + r.range(-9, 9); break; case 3: p.a = r.range(1, 600); break; case 4: p.a = r.range(1, 5000); break; default: p.a = r.range(1, 60); }
            p.b = r.next(); } }
}
void plan(int inc) {
    W& x = w(); Rng r(rseed(31 + inc)); default_sched(r, sh->sc);
    sh->fc.lat_base_ns = 2000; sh->fc.lat_spread_ns = 20000; sh->fc.torn_mode = r.below(5); sh->fc.meta_prefix = r.onein(2);
    if (x.crash[inc]) { int t = r.below(3); if (t == 0) sh->fc.crash_io = 1 + r.below(120), sh->fc.crash_after = r.onein(2); else if (t == 1) sh->fc.crash_step = 1 + r.below(600); }
    if (x.fault_mode) {
        auto add = [&](uint32_t o, uint8_t k, double p, uint64_t hits) { FaultRule& q = sh->fc.rules[sh->fc.nrules++]; q.classes = FC_ALL; q.ops = o; q.kind = k; q.p = p; q.max_hits = hits; q.from = 0; q.to = ~0ull; if (x.fault_mode == 2 && r.onein(2)) { q.from = r.below(80); q.to = q.from + r.below(60); } };
        double p = x.fault_mode == 1 ? 0.05 : (r.onein(3) ? 0.9 : 0.2); uint64_t hits = x.fault_mode == 1 ? 6 : (r.onein(3) ? 400 : 120);
        if (r.onein(2)) add(IO_WRITE, FK_SHORT, p, hits);
        if (r.onein(2)) add(IO_READ, FK_SHORT, p, hits);
        if (r.onein(3)) add(IO_WRITE | IO_READ, FK_EINTR, p, hits);
        if (r.onein(3)) add(IO_WRITE, FK_EIO, p, hits);
        if (r.onein(4)) add(IO_READ, FK_EIO, p, hits);
        if (r.onein(4)) add(IO_WRITE, FK_ENOSPC, p, hits);
        if (x.fault_mode == 2) { if (r.onein(3)) add(IO_FSYNC, FK_FSYNC_KEEP, 0.3, 20); if (r.onein(4)) add(IO_TRUNC, FK_EIO, 0.5, 5); if (r.onein(4)) add(IO_OPEN, FK_OPENFAIL, 0.5, 5); }
    }
}
uint8_t gen(uint64_t salt, uint32_t i) { return (uint8_t)(mix64(salt + i) | 1); }

// --- model transitions (all under NoPreempt by the single mutator)
void m_write_ok(FileM& f, uint32_t a, const uint8_t* d, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { if (!(f.dcert[a + i] && f.dur[a + i] == d[i])) f.dcert[a + i] = 0; f.cur[a + i] = d[i]; f.cert[a + i] = 1; } }
void m_write_unsure(FileM& f, uint32_t a, uint32_t b) { for (uint32_t i = a; i < b && i < CAP; ++i) { f.cert[i] = 0; f.dcert[i] = 0; } }
void m_fsync(FileM& f) { for (uint32_t i = 0; i < CAP; ++i) { f.dur[i] = f.cur[i]; f.dcert[i] = i < f.flushed ? f.cert[i] : 0; } f.dmin = f.flushed; if (f.dmin) f.must_exist = true; }

void check_disk(int i, const char* when) {   // clean reopen / final: disk against model
    NoPreempt np; W& x = w(); FileM& f = x.f[i]; char p[64]; path(i, p);
    static uint8_t buf[CAP * 2]; int64_t n = vfs_read_all(p, buf, sizeof buf);
    if (n < 0) { if (f.exists && f.flushed) violation("fo-missing", "%s: file %d does not exist although %u bytes were written", when, i, f.flushed); return; }
    if (n < (int64_t)f.flushed) violation("fo-short", "%s: file %d is %lld bytes, at least %u were written", when, i, (long long)n, f.flushed);
    for (uint32_t k = 0; k < f.flushed; ++k) if (f.cert[k] && buf[k] != f.cur[k]) violation("fo-bytes", "%s: file %d (%s) offset %u holds %02x, expected %02x", when, i, f.direct ? "direct" : "posix", k, buf[k], f.cur[k]);
}
void adopt_disk(int i) {                      // after a crash: the disk is the truth
    NoPreempt np; FileM& f = w().f[i]; char p[64]; path(i, p); static uint8_t buf[CAP * 2]; int64_t n = vfs_read_all(p, buf, sizeof buf);
    memset(f.cert, 0, CAP); memset(f.dcert, 0, CAP); f.exists = n >= 0; if (n < 0) n = 0; if (n > CAP) n = CAP;
    memcpy(f.cur, buf, n); memcpy(f.dur, buf, n); memset(f.cert, 1, n); memset(f.dcert, 1, n); f.len = f.flushed = f.dmin = n; f.len_known = true;
}
void check_crash(int i) {
    NoPreempt np; W& x = w(); FileM& f = x.f[i]; char p[64]; path(i, p); static uint8_t buf[CAP * 2]; int64_t n = vfs_read_all(p, buf, sizeof buf);
    if (n < 0) { if (f.must_exist) violation("fo-lost-file", "after the crash file %d is gone although it had been fsynced", i); return; }
    if (n < (int64_t)f.dmin) violation("fo-lost-size", "after the crash file %d (%s) has %lld bytes, %u were covered by a successful fsync", i, f.direct ? "direct" : "posix", (long long)n, f.dmin);
    for (uint32_t k = 0; k < f.dmin; ++k) if (f.dcert[k] && buf[k] != f.dur[k]) violation("fo-lost-bytes", "after the crash file %d (%s) offset %u holds %02x, fsync had covered %02x", i, f.direct ? "direct" : "posix", k, buf[k], f.dur[k]);
    if (f.dmin) SIM_PROBE("fo_crash_checked");
}
bool do_open(int i) {
    char p[64]; path(i, p); FileM& f = w().f[i]; FileHandle* h = nullptr;
    Status s = ops[i]->open(&h, p);
    if (!s) { if (nofault()) violation("fo-open", "open of file %d failed with %d without any fault", i, (int)s.getValue()); 
        set_faults_enabled(false); s = ops[i]->open(&h, p); set_faults_enabled(true); if (!s) violation("fo-open", "open of file %d failed with %d after the faults stopped", i, (int)s.getValue()); }
    if (!h->isOpened()) violation("fo-open", "open returned OK but the handle is not open");
    hd[i] = h; { NoPreempt np; f.exists = true; }
    cs_off_t e = ops[i]->eof(h);
    NoPreempt np;
    if (e < 0 || e > CAP - 16) harness_error("eof %lld", (long long)e);
    if (f.len_known && !f.direct && (uint32_t)e != f.len) violation("fo-size", "file %d reopened with %lld bytes, %u were written", i, (long long)e, f.len);
    if (f.len_known && f.direct && ((uint32_t)e < f.flushed || (uint32_t)e > f.len + 1024)) violation("fo-size", "file %d (direct) reopened with %lld bytes, logical length %u", i, (long long)e, f.len);
    if (f.len_known) for (uint32_t k = f.len; k < (uint32_t)e; ++k) { f.cert[k] = 0; f.dcert[k] = 0; }   // padding
    f.len = f.flushed = e; f.len_known = true;
    return true;
}
void do_close(int i) {
    FileM& f = w().f[i]; if (!hd[i]) return;
    Status s = ops[i]->close(hd[i]);
    if (!s) { if (nofault()) violation("fo-close", "close failed with %d without any fault", (int)s.getValue());
        NoPreempt np; f.len_known = false; m_write_unsure(f, f.flushed, f.len); }
    else { NoPreempt np; if (hd[i]->isOpened()) violation("fo-close", "handle still open after close"); f.flushed = f.len; }
    delete hd[i]; hd[i] = nullptr;
    if (f.len_known) check_disk(i, "after close");
}
void reopen(int i) { do_close(i); do_open(i); }

struct RdCtx { int id; };
void reader(int id) {
    char nm[16]; snprintf(nm, sizeof nm, "reader%d", id); set_name(nm); Rng r(rseed(900 + id + 10 * sh->incarnation)); W& x = w();
    std::vector<uint8_t> buf(CAP), want(CAP), cert(CAP);
    for (int k = 0; k < 12 && !stop_readers; ++k) {
        int i = r.below(x.nf); uint32_t off, n; FileHandle* h;
        { NoPreempt np; FileM& f = x.f[i]; h = hd[i]; if (!h || f.flushed < 2 || x.in_flight) { off = n = 0; } else { off = r.below(f.flushed - 1); n = 1 + r.below(f.flushed - off); if (n > 3000) n = 3000;
            memcpy(want.data(), f.cur + off, n); memcpy(cert.data(), f.cert + off, n); } }
        if (!n) { sleep_ns(10000); continue; }
        Status s = ops[i]->pread(h, buf.data(), n, off);
        NoPreempt np; FileM& f = x.f[i];
        if (!s) continue;
        for (uint32_t b = 0; b < n; ++b) if (cert[b] && f.cert[off + b] && f.cur[off + b] == want[b] && buf[b] != want[b] && !x.in_flight) violation("fo-read", "concurrent pread of file %d (%s) at %u+%u: byte %u is %02x, expected %02x", i, f.direct ? "direct" : "posix", off, n, b, buf[b], want[b]);
        SIM_PROBE("fo_conc_read");
    }
}
void run_op(Prog& p) {
    W& x = w(); int i = p.file; FileM& f = x.f[i]; FileOps* o = ops[i]; FileHandle* h = hd[i];
    std::vector<uint8_t> d;
    auto retried_must_work = [&](Status& s, const char* what) { if (!s && (nofault() || transient())) violation("fo-error", "%s failed with %d although %s", what, (int)s.getValue(), nofault() ? "no fault was injected" : "only isolated transient faults were injected"); };
    auto plain_must_work = [&](Status& s, const char* what) { if (!s && x.fault_mode != 2) violation("fo-error", "%s failed with %d although no fault hit it", what, (int)s.getValue()); };
    switch (p.type) {
    case APPEND: {
        if (f.len + p.a > CAP - 2048) return;
        d.resize(p.a); for (uint32_t k = 0; k < p.a; ++k) d[k] = gen(p.salt, k);
        { NoPreempt np; m_write_unsure(f, f.len, f.len + p.a + 1024); }
        Status s = o->append(h, d.data(), p.a); retried_must_work(s, "append");
        { NoPreempt np; if (s) { m_write_ok(f, f.len, d.data(), p.a); f.len += p.a; if (!f.direct) f.flushed = f.len; } else { f.len_known = false; f.len += p.a; } }
        if (!s) { SIM_PROBE("fo_append_failed"); reopen(i); }
        break; }
    case PWRITE: {
        if (f.direct) { Status s = o->pwrite(h, "x", 1, 0); if (s) violation("fo-directpwrite", "direct pwrite claims success"); return; }
        uint32_t off = f.len ? p.b % (f.len + 1) : 0; if (off + p.a > CAP - 2048) return;
        d.resize(p.a); for (uint32_t k = 0; k < p.a; ++k) d[k] = gen(p.salt, k);
        { NoPreempt np; m_write_unsure(f, off, off + p.a); }
        Status s = o->pwrite(h, d.data(), p.a, off); retried_must_work(s, "pwrite");
        { NoPreempt np; if (s) { m_write_ok(f, off, d.data(), p.a); if (off + p.a > f.len) f.len = off + p.a; f.flushed = f.len; } else { if (off + p.a > f.len) { f.len_known = false; } } }
        if (!s && !f.len_known) reopen(i);
        break; }
    case PREAD: case READALL: {
        uint32_t lim = f.flushed; if (!lim) return;
        uint32_t off = p.type == READALL ? 0 : p.b % lim, n = p.type == READALL ? lim : std::min<uint32_t>(p.a, lim - off);
        d.assign(n + 16, 0xEE);
        Status s = o->pread(h, d.data(), n, off); retried_must_work(s, "pread");
        if (!s) break;
        NoPreempt np;
        for (uint32_t k = 0; k < n; ++k) if (f.cert[off + k] && d[k] != f.cur[off + k]) violation("fo-read", "pread of file %d (%s, buffer %u) at %u+%u: byte %u is %02x, expected %02x", i, f.direct ? "direct" : "posix", f.bufsz, off, n, k, d[k], f.cur[off + k]);
        for (int k = 0; k < 16; ++k) if (d[n + k] != 0xEE) violation("fo-overrun", "pread wrote past the end of the caller's buffer");
        break; }
    case FLUSH: { Status s = o->flush(h); retried_must_work(s, "flush"); NoPreempt np; if (s) f.flushed = f.len; break; }
    case FSYNC: {
        if (f.direct) { Status s = o->flush(h); retried_must_work(s, "flush"); if (!s) break; NoPreempt np; f.flushed = f.len; }
        Status s = o->fsync(h); plain_must_work(s, "fsync");
        if (s) { NoPreempt np; m_fsync(f); SIM_PROBE("fo_fsync_ok"); } break; }
    case TRUNC: {
        if (f.direct) { Status s = o->flush(h); retried_must_work(s, "flush"); if (!s) break; NoPreempt np; f.flushed = f.len; }
        uint32_t len = f.len ? p.b % (f.len + 1) : 0; if (p.a % 5 == 0) len = len / 512 * 512; if (p.a % 7 == 0) len = 0;
        if (!f.direct && p.a % 3 == 0) len = std::min<uint32_t>(f.len + p.a, CAP - 4096);
        { NoPreempt np; m_write_unsure(f, std::min(len, f.len), CAP); if (len < f.dmin) f.dmin = len; }
        Status s = o->ftruncate(h, len);
        // the direct version re-reads the tail: that read is retried; ftruncate itself is not
        if (!s && nofault()) violation("fo-error", "ftruncate failed with %d without any fault", (int)s.getValue());
        if (s) { NoPreempt np; for (uint32_t k = f.len; k < len; ++k) { f.cur[k] = 0; f.cert[k] = 1; } f.len = len; f.flushed = len; }
        else { { NoPreempt np; f.len_known = false; f.flushed = std::min(f.flushed, len); f.len = std::max(len, f.len); } reopen(i); }
        break; }
    case EOFQ: { cs_off_t e = o->eof(h); NoPreempt np; if (!f.direct ? e != (cs_off_t)f.len : (e < (cs_off_t)f.flushed || e > (cs_off_t)f.len + 1024)) violation("fo-size", "eof of file %d (%s) is %lld, expected %u (flushed %u)", i, f.direct ? "direct" : "posix", (long long)e, f.len, f.flushed); break; }
    case REOPEN: reopen(i); break;
    case EXISTQ: { char q[64]; path(i, q); if (!o->exist(q)) violation("fo-exist", "existing file reported missing"); snprintf(q, sizeof q, "/sim/fo%d/nope", i); if (o->exist(q)) violation("fo-exist", "missing file reported present"); if (o->remove(q)) violation("fo-remove", "removing a missing file succeeded"); if (o->mkdir("/sim/nodir/x")) violation("fo-mkdir", "mkdir without parent succeeded"); break; }
    case MISUSE: {
        uint8_t b[64]; Status s = o->pread(h, b, 32, (cs_off_t)f.len + 5000 + p.a); if (s) violation("fo-read-beyond", "pread beyond the end of the file reported success");
        if (o->pread(nullptr, b, 1, 0) || o->append(nullptr, b, 1) || o->fsync(nullptr) || o->flush(nullptr)) violation("fo-null", "operation on a null handle reported success"); break; }
    }
    ctl->work++;
}
void body() {
    W& x = w(); int inc = sh->incarnation; stop_readers = false;
    set_faults_enabled(false);
    for (int i = 0; i < x.nf; ++i) {
        ops[i] = x.f[i].direct ? (FileOps*)new FileOpsDirectIO(nullptr, x.f[i].bufsz, 512) : (FileOps*)new FileOpsPosix();
        char d[32]; snprintf(d, sizeof d, "/sim/fo%d", i);
        if (inc && ctl->note[0]) { check_crash(i); adopt_disk(i); }
        if (!ops[i]->exist(d)) { Status s = ops[i]->mkdir(d); if (!s) violation("fo-mkdir", "mkdir failed with %d", (int)s.getValue()); if (!ops[i]->exist(d)) violation("fo-mkdir", "directory missing after mkdir"); }
    }
    x.in_flight = 0; ctl->note[0] = 1;
    set_faults_enabled(true);
    for (int i = 0; i < x.nf; ++i) do_open(i);
    std::vector<std::thread> rd; for (int k = 0; k < x.nreaders; ++k) rd.emplace_back(reader, k);
    bool has_reopen = x.nreaders == 0;
    for (int k = 0; k < x.nop[inc]; ++k) {
        if (!item_on(inc, k)) continue;
        Prog& p = x.prog[inc][k];
        // handles may only be replaced while no reader can be using them
        if (!has_reopen && (p.type == REOPEN || p.type == TRUNC || p.type == PWRITE || (x.fault_mode == 2 && p.type == APPEND))) continue;
        { NoPreempt np; x.in_flight = (p.type == PWRITE || p.type == TRUNC) ? k + 1 : 0; }
        hash_event(p.type); dbg("op %d type %d file %d a=%u", k, p.type, p.file, p.a);
        run_op(p);
        { NoPreempt np; x.in_flight = 0; }
    }
    stop_readers = true; for (auto& t : rd) t.join();
    if (x.crash[inc]) crash_now("end of program");
    set_faults_enabled(false);
    for (int i = 0; i < x.nf; ++i) {
        // faults have stopped: a flush must work and everything must be there
        Status s = ops[i]->flush(hd[i]); if (!s) violation("fo-recover", "flush fails with %d after the faults stopped", (int)s.getValue()); { NoPreempt np; x.f[i].flushed = x.f[i].len; }
        Prog p; p.file = i; p.type = READALL; p.a = p.b = 0; run_op(p);
        do_close(i); if (vfs_open_fds("/sim/fo")) { char q[64]; path(i, q); if (vfs_open_fds(q) && x.fault_mode == 0) violation("fo-fdleak", "descriptor of file %d still open after close", i); }
        delete ops[i];
    }
    ctl->note[0] = 0;
    if (inc + 1 < x.ninc) ctl->more = true;
}
}
sim::World world_fileops = { "fileops", sizeof(W), configure, plan, body, MAXINC };
