// The key-value world: whole Jungle databases under concurrent clients, background work, crashes and I/O faults.
// Decides C01-C09, C11, C14, C17, C20 and parts of C16.
#include "../damage.h"
#include "../run.h"
#include "../oracle.h"
#include <libjungle/jungle.h>
#include <libjungle/iterator.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <string.h>
extern char** environ;
using namespace sim; using namespace jungle; using namespace kvo;
namespace {
enum { MAXCL = 5, MAXOPS = 72, MAXSNAP = 3, KLEN = 72 };
enum Op : uint8_t { SET, SETREC, DEL, DELREC, SETSN, BATCH, GBATCH, GET, GETREC, GETSEQ, NEAREST, PREFIX, ITER, SNITER, SNAPOPEN, SNAPREAD, SNAPCLOSE,
    CHECKPOINT, CHKOPEN, SYNC, SYNCF, SYNCNW, FLUSH, FLUSHASYNC, CL0, CLV, CIN, CIDX, SPLIT, MERGE, STATS, SEQS, SLEEP, REOPEN, FULL, SAMPLE, NOPS };
const char* opn[] = { "set", "setRecordByKey", "del", "delRecord", "setSN", "setRecordBatch", "GlobalBatch", "get", "getRecordByKey", "getRecord", "getNearest", "getPrefix", "iterator", "seq-iterator", "openSnapshot", "snapshot-read", "close-snapshot",
    "checkpoint", "open-checkpoint", "sync", "sync(fsync)", "syncNoWait", "flushLogs", "flushLogsAsync", "compactL0", "compactLevel", "compactInplace", "compactIdxUpto", "splitLevel", "mergeLevel", "getStats", "seqnums", "sleep", "reopen", "read-all", "sample" };
struct Item { uint8_t op, db, key; uint32_t a, b; };
struct Perf {  // options that may change from one opening to the next
    uint8_t comp, direct, bloom, fastscan, parw, seqidx, keepmem, preflush, bulk, serial, skipmani, ttl; uint16_t maxent; uint32_t maxlog; uint8_t booster; uint16_t dbuf; };
struct Cfg {
    int ndb, nkey, ncl[MAXINC], ninc, nops[MAXINC], vmax, keymode, hashmode, cmp; bool nextlv, perclient, mainholds; int seqmode; double probe;
    Perf perf[MAXINC]; int l0parts, mintab; uint32_t l1max, l1size, l0max, minfile, minwss, cfactor, nwrites; int maxchk; bool purgedel, overwriteseq, group;
    int flushers, compactors, fsleep, csleep, minrec, minlog, autosync, dedicated, writers, reclaim; uint32_t mfbuf; uint8_t idle;
    int endmode[MAXINC];      // 0 crash after checks, 1 clean close, 2 crash during the close
    int crashkind[MAXINC];    // 0 none, 1 io, 2 step
    int faultmode;            // 0 none, 1 log, 2 manifests, 3 tables, 4 everything
    bool shutdown_busy;
    uint8_t crashmode;        // 0 no crash, 1 the process is killed (everything written survives), 2 power loss with every sync an fsync, 3 power loss with any sync but no flush to tables
    uint8_t damage[MAXINC]; uint64_t dseed[MAXINC];   // one copy of a manifest is damaged before this incarnation
    char key[MAXKEY][KLEN]; uint8_t klen[MAXKEY];
    Item prog[MAXINC][MAXCL][MAXOPS];
};
struct AsyncRec { uint8_t db, inc, fsync, done; int count, status; uint64_t inv, donest; };
enum { MAXASYNC = 600 };
struct Sh {
    Cfg c; Hist h;
    bool crashed_since[MAXDB]; int seen_inc[MAXDB]; bool any_ok[MAXDB]; bool clean_end; bool faults_used;
    int nasync; AsyncRec as[MAXASYNC]; int ngid; uint64_t chk[MAXDB][64]; int nchk[MAXDB]; uint8_t chkinc[MAXDB][64];
};
Sh& S() { return *(Sh*)wsh; }
Cfg& C() { return S().c; }
// ------------------------------------------------------------------------------------ configuration (driver process)
int rank_cmp(const char* a, int la, const char* b, int lb) { int n = la < lb ? la : lb, r = memcmp(a, b, n); if (!r) r = la - lb; return C().cmp ? -r : r; }
void set_weights(int* w, Rng& r) {
    auto W = [&](Op o, int v) { w[o] = v; };
    W(SET, 20); W(SETREC, 6); W(DEL, 6); W(DELREC, 2); W(BATCH, 3); W(GET, 12); W(GETREC, 4); W(SYNC, 2); W(SYNCF, 2); W(FLUSH, 3); W(FLUSHASYNC, 1); W(CL0, 2); W(CLV, 1); W(CIN, 1); W(SPLIT, 1); W(MERGE, 1);
    W(SEQS, 1); W(SLEEP, 3); W(ITER, 1); W(SNAPOPEN, 1); W(SNAPREAD, 1); W(SNAPCLOSE, 1); W(CHECKPOINT, 1); W(CHKOPEN, 1); W(FULL, 1); W(STATS, 1); W(SYNCNW, 1); W(NEAREST, 1); W(CIDX, 1); W(GETSEQ, 1);
    if (prop_is("C01") || prop_is("C02")) { W(SYNCF, 6); W(FLUSH, 4); W(FLUSHASYNC, 4); W(CHECKPOINT, 2); W(SET, 26); W(GET, 4); W(ITER, 0); }
    if (prop_is("C03")) { W(GET, 26); W(GETREC, 6); W(FULL, 3); W(FLUSH, 5); W(CL0, 4); W(SPLIT, 2); W(MERGE, 2); W(CLV, 2); W(BATCH, 2); W(ITER, 0); W(SLEEP, 5); }
    if (prop_is("C04")) { W(FLUSH, 10); W(CL0, 10); W(CLV, 5); W(CIN, 5); W(SPLIT, 5); W(MERGE, 5); W(CIDX, 3); W(SYNC, 5); W(SET, 30); W(FULL, 4); W(DEL, 10); W(SLEEP, 5); }
    if (prop_is("C05")) { W(ITER, 16); W(SNITER, 6); W(FLUSH, 6); W(CL0, 4); W(BATCH, 4); W(DEL, 10); W(SYNC, 4); W(CLV, 2); W(SPLIT, 2); }
    if (prop_is("C06")) { W(SNAPOPEN, 8); W(SNAPREAD, 16); W(SNAPCLOSE, 4); W(CHECKPOINT, 5); W(CHKOPEN, 6); W(FLUSH, 5); W(CL0, 4); W(SYNC, 4); W(CLV, 2); W(SPLIT, 2); W(CIN, 2); }
    if (prop_is("C07")) { W(BATCH, 30); W(SET, 8); W(FULL, 6); W(ITER, 6); W(GET, 16); W(SNAPOPEN, 3); W(SNAPREAD, 4); W(SNITER, 2); W(SYNCF, 4); }
    if (prop_is("C08")) { W(GBATCH, 30); W(BATCH, 5); W(SET, 6); W(FULL, 5); W(ITER, 4); W(GET, 12); W(SNAPOPEN, 2); W(SNAPREAD, 3); W(SEQS, 2); }
    if (prop_is("C09")) { W(SEQS, 12); W(GETSEQ, 14); W(SNITER, 5); W(SETSN, r.onein(3) ? 10 : 0); W(SYNCF, 4); W(FLUSH, 5); W(SYNC, 4); W(BATCH, 5); W(FLUSHASYNC, 2); }
    if (prop_is("C11")) { W(NEAREST, 24); W(PREFIX, 12); W(DEL, 10); W(FLUSH, 5); W(SYNC, 3); W(CL0, 4); W(SPLIT, 3); W(CLV, 2); W(MERGE, 2); W(GET, 3); }
    if (prop_is("C14")) { W(SYNC, 6); W(SYNCF, 6); W(FLUSH, 6); W(CL0, 3); W(FLUSHASYNC, 2); W(CHECKPOINT, 2); W(FULL, 3); W(SNAPOPEN, 1); W(ITER, 1); }
    if (prop_is("C16")) { W(FLUSHASYNC, 20); W(SYNC, 3); W(SYNCNW, 3); W(SLEEP, 6); W(REOPEN, 2); }
    if (prop_is("C17")) { W(REOPEN, 12); W(SNAPOPEN, 5); W(SNAPREAD, 4); W(SNAPCLOSE, 3); W(FLUSHASYNC, 5); W(SLEEP, 5); W(FLUSH, 4); W(CL0, 3); W(ITER, 1); }
    if (prop_is("C20")) { W(ITER, 3); W(NEAREST, 4); W(PREFIX, 3); W(FLUSH, 6); W(CL0, 5); W(SPLIT, 2); W(CLV, 2); W(MERGE, 2); W(REOPEN, 2); W(BATCH, 4); W(SNITER, 2); }
    for (int i = 0; i < NOPS; ++i) if (w[i] && r.onein(6)) w[i] = r.onein(2) ? 0 : w[i] * 3;
    if (!w[SET]) w[SET] = 8;
    if (!C().hashmode && C().keymode != 1) {}
}
void sample_perf(Rng& r, Perf& p) {
    bool heavy = prop_is("C20");
    p.comp = r.onein(heavy ? 2 : 4); p.direct = r.onein(heavy ? 3 : 6); p.bloom = r.onein(2) ? r.range(1, 3) : 0; p.fastscan = r.onein(3); p.parw = r.onein(3) ? r.range(1, 4) : 0; p.seqidx = !r.onein(4);
    p.keepmem = r.onein(2) ? r.range(1, 4) : 0; p.preflush = r.below(3); p.serial = !r.onein(3); p.skipmani = r.onein(6); p.ttl = r.onein(3) ? r.range(1, 3) : 0; p.bulk = r.onein(8);
    static const uint16_t me[] = { 3, 5, 8, 16, 40, 200 }; p.maxent = r.pick(me); static const uint32_t ml[] = { 300, 1000, 4000, 100000 }; p.maxlog = r.pick(ml); p.booster = r.onein(heavy ? 6 : 16) ? 1 : 0;
    static const uint16_t db[] = { 512, 1024, 4096, 16384 }; p.dbuf = r.pick(db);
}
void configure() {
    Rng r(rseed(1)); Cfg& c = C(); H = &S().h;
    c.ndb = prop_is("C08") ? r.range(2, 3) : prop_is("C12") && r.onein(4) ? 3 : r.onein(5) ? 2 : 1; static const int nk[] = { 3, 6, 10, 20, 32, 40 }; c.nkey = r.pick(nk);
    c.ninc = prop_is("C01") || prop_is("C02") || prop_is("C12") ? r.range(2, 4) : prop_is("C03") || prop_is("C05") || prop_is("C11") ? r.range(1, 2) : prop_is("C14") ? 2 : r.range(1, 3);
    static const int vm[] = { 0, 8, 60, 300, 1500 }; c.vmax = r.pick(vm);
    c.keymode = prop_is("C11") && r.onein(2) ? 1 : r.below(4); c.hashmode = c.keymode == 1 && r.onein(2); 
    c.cmp = (prop_is("C20") || prop_is("C05") || prop_is("C11")) && r.onein(5); c.nextlv = c.cmp ? false : !r.onein(4);
    c.perclient = r.onein(2) || prop_is("C17"); c.mainholds = prop_is("C17") ? r.onein(3) : true; c.seqmode = r.below(3); c.probe = c.seqmode == 0 ? 0.9 : c.seqmode == 1 ? 0.3 : 0;
    sample_perf(r, c.perf[0]); for (int i = 1; i < MAXINC; ++i) { c.perf[i] = c.perf[0]; if (prop_is("C20") || r.onein(4)) { sample_perf(r, c.perf[i]); if (c.perf[0].comp) c.perf[i].comp = c.perf[0].comp; else if (c.perf[i].comp) c.perf[i].comp = prop_is("C20") ? (i > 0 && c.perf[i - 1].comp ? 1 : c.perf[i].comp) : 0; } }
    for (int i = 1; i < MAXINC; ++i) if (c.perf[i - 1].comp) c.perf[i].comp = 1;   // once compressed data exists the callbacks stay
    c.l0parts = r.onein(2) ? r.range(1, 2) : r.range(1, 5); c.mintab = r.range(1, 4);
    static const uint32_t l1[] = { 200, 600, 2000, 8000, 100000 }; c.l1max = r.pick(l1); c.l1size = r.onein(2) ? c.l1max * r.range(2, 6) : 1u << 30; c.l0max = r.onein(2) ? 1000 : 1u << 30; c.minfile = r.onein(2) ? 1 : 4000; c.minwss = r.onein(2) ? 1 : 500;
    c.cfactor = r.onein(2) ? 120 : 300; c.nwrites = r.onein(3) ? r.range(4, 40) : 0; c.maxchk = r.range(1, 6); c.purgedel = !r.onein(4); c.overwriteseq = false; c.group = c.ndb > 1 && r.onein(3);
    c.flushers = r.onein(4) ? 0 : r.range(1, 3); c.compactors = r.onein(3) ? 0 : r.range(1, 3); static const int fs[] = { 1, 10, 100, 500 }; c.fsleep = r.pick(fs); c.csleep = r.pick(fs) * 2; c.minrec = r.onein(2) ? r.range(1, 20) : 65536; c.minlog = r.onein(2) ? r.range(1, 4) : 16; c.autosync = r.onein(3); c.dedicated = c.flushers > 1 && r.onein(4) ? 1 : 0;
    if (prop_is("C16") && !c.flushers) c.flushers = 1;
    if (c.compactors) { c.minfile = r.onein(2) ? 4000 : 40000; c.cfactor = 300; if (c.l1max < 2000) c.l1max = 2000; }   // smaller thresholds make the background compactor rewrite the same file forever
    c.writers = r.onein(3) ? 0 : r.range(1, 4); c.reclaim = r.range(1, 3); static const uint32_t mf[] = { 64, 200, 1000, 32768 }; c.mfbuf = r.pick(mf); c.idle = r.onein(5);
    c.faultmode = prop_is("C14") ? r.range(1, 4) : 0;
    c.shutdown_busy = prop_is("C17") || prop_is("C16") ? r.onein(2) : r.onein(8);
    bool crashy = prop_is("C01") || prop_is("C02"); 
    for (int k = 0; k < c.ninc; ++k) {
        bool last = k + 1 == c.ninc; double pc = crashy ? 0.85 : prop_is("C04") || prop_is("C07") || prop_is("C09") || prop_is("C06") || prop_is("C14") || prop_is("C20") || prop_is("C12") ? 0.5 : 0.25;
        c.crashkind[k] = !last && r.chance(pc) ? r.range(1, 2) : 0; c.endmode[k] = last ? 1 : r.chance(pc) ? (r.onein(3) ? 2 : 0) : 1;
        c.ncl[k] = r.onein(4) ? 1 : r.range(1, MAXCL); if (prop_is("C08") && c.ncl[k] == 1) c.ncl[k] = 2;
        if (c.seqmode == 0 && r.onein(2)) c.ncl[k] = 1;
        int tot = r.range(10, 160); c.nops[k] = std::min<int>(MAXOPS, std::max(3, tot / c.ncl[k])); }
    // Envelope: one client without background work; several clients, only the first of which flushes, with crashes; the same with background flushers but without crashes.
    static const char* many[] = { "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C20", "C01", "C02" }; bool mc = false, crs = prop_is("C01") || prop_is("C02"); for (auto m : many) mc |= prop_is(m);
    int mode = r.below(100); const char* e = !mc || mode < 45 ? "1b3" : crs || mode < 75 ? "b3s" : "3skcL"; for (char** q = environ; *q; ++q) if (!strncmp(*q, "KVX=", 4)) e = *q + 4;   // the environment variable is for triage only
    {
        if (strchr(e, '1')) for (int k = 0; k < c.ninc; ++k) c.ncl[k] = 1;
        if (strchr(e, 'c')) for (int k = 0; k < c.ninc; ++k) { c.crashkind[k] = 0; c.endmode[k] = 1; }
        if (strchr(e, 'b')) { c.flushers = c.compactors = 0; } if (strchr(e, 'k')) { c.compactors = 0; c.fsleep = std::max(c.fsleep, 100); }
        if (strchr(e, 'i')) { c.ninc = 1; c.endmode[0] = 1; c.crashkind[0] = 0; } }
    int lite = 0; if (const char* q = strpbrk(e, "pqstu")) lite = *q == 'p' ? 1 : *q == 'q' ? 2 : *q == 's' ? 3 : *q == 't' ? 4 : 5;
    bool anydmg = false; for (int k = 0; k < MAXINC; ++k) c.dseed[k] = r.next();
    if (prop_is("C12") && c.ninc > 1 && !r.onein(3)) { int k = r.range(1, c.ninc - 1); c.damage[k] = 1 << (c.group && r.onein(2) ? r.range(5, 6) : r.range(1, 4)); c.crashkind[k - 1] = 0; c.endmode[k - 1] = 1; anydmg = true;
        if (c.damage[k] & (DM_BAK | DM_TBAK | DM_DBAK)) for (int i = k; i < c.ninc; ++i) c.crashkind[i] = 0, c.endmode[i] = 1; }   // one copy only, and no crash before it is stored again
    bool anycrash = anydmg; for (int k = 0; k < c.ninc; ++k) anycrash |= c.crashkind[k] || c.endmode[k] != 1;
    c.crashmode = !anycrash ? 0 : r.onein(3) ? 1 : r.onein(4) ? 3 : 2; if (anydmg || (strchr(e, '3') && c.crashmode == 3)) c.crashmode = 2; if (c.crashmode == 3) c.flushers = 0; if (c.crashmode == 2) c.autosync = 0;
    // keys, sorted by the comparator
    std::set<std::string> ks; int guard = 0;
    while ((int)ks.size() < c.nkey && guard++ < 10000) { char b[KLEN]; int n = 0;
        switch (c.keymode) { case 0: n = snprintf(b, sizeof b, "k%03d", (int)ks.size()); break;
            case 1: n = snprintf(b, sizeof b, "p%d_%02d", (int)r.below(c.nkey > 10 ? 4 : 2), (int)r.below(60)); break;
            case 2: { n = r.range(1, 6); for (int i = 0; i < n; ++i) { static const uint8_t al[] = { 0, 1, 'a', 0x7f, 0x80, 0xff }; b[i] = (char)r.pick(al); } break; }
            default: { n = r.range(1, 64); char ch = 'a' + r.below(2); memset(b, ch, n); if (r.onein(2)) b[n - 1] = 'a' + r.below(26); } }
        ks.insert(std::string(b, n)); }
    c.nkey = ks.size(); std::vector<std::string> kv(ks.begin(), ks.end());
    std::sort(kv.begin(), kv.end(), [](const std::string& a, const std::string& b) { return rank_cmp(a.data(), a.size(), b.data(), b.size()) < 0; });
    for (int i = 0; i < c.nkey; ++i) { memcpy(c.key[i], kv[i].data(), kv[i].size()); c.klen[i] = kv[i].size(); }
    for (int k = 0; k < c.ninc; ++k) { int w[NOPS] = { 0 }; set_weights(w, r); if (c.ncl[k] > 1) w[SETSN] = 0; if (c.cmp) w[PREFIX] = 0; if (w[SETSN]) { c.ncl[k] = 1; }
        int tot = 0; for (int i = 0; i < NOPS; ++i) tot += w[i];
        bool hot = r.onein(3); int nhot = 1 + r.below(4);
        for (int cl = 0; cl < c.ncl[k]; ++cl) for (int i = 0; i < c.nops[k]; ++i) { Item& it = c.prog[k][cl][i]; int v = r.below(tot), t = 0; while (v >= w[t]) v -= w[t++];
            if ((c.ncl[k] > 1 || strchr(e, 'L')) && lite) { bool m = cl != 0;   // several clients, restricted maintenance
                if (lite < 5 && (t == CL0 || t == CLV || t == CIN || t == CIDX || t == SPLIT || t == MERGE)) t = r.onein(2) ? SET : GET;
                if (lite >= 5 && m && (t == CL0 || t == CLV || t == CIN || t == CIDX || t == SPLIT || t == MERGE)) t = r.onein(2) ? SET : GET;
                if ((lite < 4 || m) && (t == CHECKPOINT || t == CHKOPEN)) t = SETREC;
                if ((lite < 3 || m) && (t == FLUSH || t == FLUSHASYNC)) t = GETREC;
                if (lite < 2 && (t == ITER || t == SNITER || t == SNAPOPEN || t == SNAPREAD || t == SNAPCLOSE)) t = BATCH;
                if (t == REOPEN) t = FULL; }
            it.op = t; it.db = r.below(c.ndb); it.key = hot && r.onein(2) ? r.below(std::min(nhot, c.nkey)) : r.below(c.nkey); it.a = r.next(); it.b = r.next();
            if (c.crashmode >= 1 && it.op == FLUSH) it.a &= ~1u; if (c.crashmode >= 1 && it.op == FLUSHASYNC) it.a &= ~4u;    // tables may run ahead of the logs by design when asked to flush beyond the last sync
            if (c.crashmode == 2) { if (it.op == SYNC) it.op = SYNCF; if (it.op == SYNCNW || it.op == CHECKPOINT) it.a |= 1; if (it.op == FLUSHASYNC) it.a |= 2; }
            if (c.crashmode == 3 && (it.op == FLUSH || it.op == FLUSHASYNC)) it.op = it.a & 8 ? SYNC : SYNCF; } }
    H->ndb = c.ndb; H->nkey = c.nkey; for (int i = 0; i < MAXDB; ++i) S().seen_inc[i] = -1;
    snprintf(ctl->desc, sizeof ctl->desc, "%d database(s), %d keys (key style %d%s%s), values to %d bytes, %d incarnation(s), clients %d/%d/%d, ops per client %d/%d/%d, log file entries %d, L0 partitions %d, L1 table limit %u, next level %d, flushers %d, compactors %d, compression %d, direct I/O %d, fault mode %d, first ops %s,%s,%s,%s", c.ndb, c.nkey, c.keymode, c.hashmode ? ", prefix hash" : "", c.cmp ? ", custom order" : "", c.vmax, c.ninc, c.ncl[0], c.ncl[1], c.ncl[2], c.nops[0], c.nops[1], c.nops[2], c.perf[0].maxent, c.l0parts, c.l1max, c.nextlv, c.flushers, c.compactors, c.perf[0].comp, c.perf[0].direct, c.faultmode, opn[c.prog[0][0][0].op], opn[c.prog[0][0][1].op], opn[c.prog[0][0][2].op], opn[c.prog[0][0][3].op]);
}
void plan(int inc) {
    Cfg& c = C(); Rng r(rseed(50 + inc)); default_sched(r, sh->sc); H = &S().h;
    sh->sc.max_ns = 7200ull * 1000000000ull;
    sh->fc.lat_base_ns = 2000; sh->fc.lat_spread_ns = r.onein(3) ? 2000000 : 20000; if (r.onein(5)) sh->fc.p_slow = 0.02, sh->fc.slow_ns = 200000000;
    sh->fc.torn_mode = c.crashmode == 1 ? 1 : r.below(5); sh->fc.meta_prefix = r.onein(2);
    if (c.crashkind[inc] == 1) { double e = r.range(0, 110) / 10.0; uint64_t x = 1; for (; e >= 1; e -= 1) x *= 2; x += r.below(x); sh->fc.crash_io = x; sh->fc.crash_after = r.onein(2); }
    if (c.crashkind[inc] == 2) { uint64_t x = 1ull << r.range(4, 16); sh->fc.crash_step = x + r.below(x); }
    if (c.faultmode) {
        uint32_t cls = c.faultmode == 1 ? FC_LOG : c.faultmode == 2 ? (FC_LOGMANI | FC_TABLEMANI | FC_DBMANI | FC_BACKUP) : c.faultmode == 3 ? FC_TABLE : (FC_ALL & ~FC_LOGGER);
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) { FaultRule& q = sh->fc.rules[sh->fc.nrules++]; q.classes = cls; static const double ps[] = { 0.01, 0.05, 0.3, 1.0 }; q.p = r.pick(ps); q.from = r.below(300); q.to = q.from + 5 + r.below(r.onein(2) ? 40 : 400); q.max_hits = r.onein(2) ? r.range(1, 3) : 300; 
            switch (r.below(7)) { case 0: q.ops = IO_WRITE; q.kind = FK_EIO; break; case 1: q.ops = IO_WRITE; q.kind = FK_ENOSPC; break; case 2: q.ops = IO_FSYNC; q.kind = FK_FSYNC_KEEP; break; case 3: q.ops = IO_WRITE | IO_READ; q.kind = FK_SHORT; break; case 4: q.ops = IO_OPEN; q.kind = FK_OPENFAIL; break; case 5: q.ops = IO_READ; q.kind = FK_EIO; break; default: q.ops = IO_TRUNC | IO_UNLINK | IO_RENAME; q.kind = FK_EIO; }
            if (c.faultmode == 3 && (q.ops & IO_READ)) q.ops = IO_WRITE, q.kind = FK_EIO; }
    }
}
// ------------------------------------------------------------------------------------ helpers in the simulated process
struct Client;
DB* mainh[MAXDB]; std::atomic<int> dummy; std::mutex seqlock; DBGroup* grp;
SizedBuf keyb(int k) { Cfg& c = C(); return SizedBuf(c.klen[k], c.key[k]); }
int key_index(const SizedBuf& b) { Cfg& c = C(); for (int i = 0; i < c.nkey; ++i) if (c.klen[i] == b.size && !memcmp(c.key[i], b.data, b.size)) return i; return -1; }
std::string dbpath(int d) { if (C().group) return "/sim/grp"; char b[32]; snprintf(b, sizeof b, "/sim/db%d", d); return b; }
int cmp_cb(void* a, size_t la, void* b, size_t lb, void*) { size_t n = std::min(la, lb); int r = n ? memcmp(a, b, n) : 0; if (!r) r = la < lb ? -1 : la > lb ? 1 : 0; return -r; }
ssize_t comp_max(DB*, const Record& r) { if (r.kv.value.size % 5 == 4) return 0; return r.kv.value.size + 9; }
ssize_t comp_do(DB*, const Record& r, SizedBuf& out) {   // layout: tag, length, payload without the predictable tail
    uint32_t n = r.kv.value.size; if (out.size < n + 9u) violation("kv-comp-buffer", "compression buffer of %u bytes for %u", out.size, n + 9);
    if (n % 5 == 3) return 0;
    uint8_t* p = (uint8_t*)out.data; p[0] = 0xC5; memcpy(p + 1, &n, 4); uint32_t keep = n > 8 && n % 2 ? 8 : n; memcpy(p + 5, &keep, 4);
    for (uint32_t i = 0; i < keep; ++i) p[9 + i] = ((uint8_t*)r.kv.value.data)[i] ^ 0x5a; return 9 + keep; }
uint32_t padlen(uint32_t op) { int m = C().vmax; return m ? mix64(op * 977ull) % (m + 1) : 0; }
uint8_t padbyte(uint32_t op, uint32_t i) { return (uint8_t)(mix64(op * 31ull + i / 8) >> (8 * (i % 8))); }
ssize_t comp_un(DB*, const SizedBuf& in, SizedBuf& out) {
    uint8_t* p = (uint8_t*)in.data; if (in.size < 9 || p[0] != 0xC5) return -1; uint32_t n, keep; memcpy(&n, p + 1, 4); memcpy(&keep, p + 5, 4);
    if (in.size != 9 + keep || out.size < n) return -1; uint8_t* o = (uint8_t*)out.data; for (uint32_t i = 0; i < keep; ++i) o[i] = p[9 + i] ^ 0x5a;
    if (keep < n) { uint32_t op; memcpy(&op, o, 4); for (uint32_t i = keep; i < n; ++i) o[i] = padbyte(op, i - 8); } return n; }
size_t hash_len(const HashKeyLenParams& p) { return p.key.size >= 3 ? 3 : p.key.size; }
std::string enc(uint32_t op, uint32_t salt) { uint32_t chk = (uint32_t)mix64(op ^ ((uint64_t)salt << 32)); std::string s; s.append((char*)&op, 4); s.append((char*)&chk, 4); uint32_t n = salt ? padlen(op * 3 + salt) / 8 : padlen(op); for (uint32_t i = 0; i < n; ++i) s += (char)padbyte(op, i); return s; }
// decode and verify; returns the operation id
uint32_t dec(int db, int key, const SizedBuf& v, const char* how) {
    uint32_t op = 0; if (v.size < 8) violation("kv-invented", "%s of db%d key%d returned %u bytes that nobody wrote", how, db, key, v.size);
    memcpy(&op, v.data, 4); if (!op || (int)op > H->nw) violation("kv-invented", "%s of db%d key%d returned a value that nobody wrote (tag %u, %u bytes)", how, db, key, op, v.size);
    Write& w = H->w[op - 1]; char b[200];
    if (w.db != db || w.key != key || w.type) violation("kv-mixed", "%s of db%d key%d returned the value of %s", how, db, key, opname(op, b, sizeof b));
    std::string e = enc(op, 0); if (e.size() != v.size || memcmp(e.data(), v.data, v.size)) { uint32_t i = 0; while (i < v.size && i < e.size() && e[i] == ((char*)v.data)[i]) ++i; violation("kv-torn-value", "%s of db%d key%d returned a damaged value of %s: %u bytes instead of %zu, first difference at %u", how, db, key, opname(op, b, sizeof b), v.size, e.size(), i); }
    return op;
}
void chk_meta(uint32_t op, const SizedBuf& m, const char* how) {
    Write& w = H->w[op - 1]; char b[200]; std::string e = w.hasmeta ? enc(op, 7) : std::string();
    if (e.size() != m.size || (m.size && memcmp(e.data(), m.data, m.size))) violation("kv-meta", "%s returned wrong metadata (%u bytes instead of %zu) for %s", how, m.size, e.size(), opname(op, b, sizeof b)); }
bool faulty() { return C().faultmode != 0; }
bool closing = false;
[[noreturn]] void bad_status(const char* what, Status s, int db) { violation("kv-error", "%s on db%d failed with %d although nothing was injected", what, db, (int)s.getValue()); }
// another thread may hold the one sync slot (only syncs with each other are queued)
bool busy_sync() { Cfg& c = C(); return c.ncl[sh->incarnation] > 1 || c.flushers; }
bool unexpected(Status s) { (void)s; return !faulty(); }

DBConfig dbcfg(int inc) {
    Cfg& c = C(); Perf& p = c.perf[inc]; DBConfig d; d.lookupBoosterLimit_mb.clear(); d.lookupBoosterLimit_mb.push_back(p.booster); d.lookupBoosterLimit_mb.push_back(p.booster);
    d.maxEntriesInLogFile = p.maxent; d.maxLogFileSize = p.maxlog; d.maxKeepingMemtables = p.keepmem; d.logFileTtl_sec = p.ttl; d.maxKeepingCheckpoints = c.maxchk; 
    if (c.cmp) d.cmpFunc = cmp_cb;
    d.numL0Partitions = c.l0parts; d.minNumTablesPerLevel = c.mintab; d.minFileSizeToCompact = c.minfile; d.minWssToMerge = c.minwss; d.compactionFactor = c.cfactor; d.numWritesToCompact = c.nwrites; d.nextLevelExtension = c.nextlv;
    d.maxL0TableSize = c.l0max; d.maxL1TableSize = c.l1max; d.maxL1Size = c.l1size; d.tableSizeRatio.clear(); d.tableSizeRatio.push_back(1.5); d.levelSizeRatio.clear(); d.levelSizeRatio.push_back(3);
    d.bloomFilterBitsPerUnit = p.bloom == 0 ? 0 : p.bloom == 1 ? 10 : p.bloom == 2 ? 2 : 0.5; d.useBloomFilterForGet = p.bloom != 3; if (c.hashmode) d.customLenForHash = hash_len;
    d.fastIndexScan = p.fastscan; d.maxParallelWritesPerJob = p.parw; d.useSequenceIndex = p.seqidx; d.preFlushDirtyInterval_sec = p.preflush; d.preFlushDirtySize = p.preflush == 2 ? 200 : 0; d.serializeMultiThreadedLogFlush = p.serial; d.skipManifestSync = p.skipmani; d.bulkLoading = p.bulk;
    d.purgeDeletedDocImmediately = c.purgedel;
    if (p.comp) { d.compOpt.cbGetMaxSize = comp_max; d.compOpt.cbCompress = comp_do; d.compOpt.cbDecompress = comp_un; }
    if (p.direct) { d.directIoOpt.enabled = true; d.directIoOpt.bufferSize = p.dbuf; d.directIoOpt.alignSize = 512; }
    return d;
}
uint64_t maxseq(DB* db) { uint64_t v = 0; Status s = db->getMaxSeqNum(v); if (!s || v == (uint64_t)-1) v = 0; return v; }
Status open_db(int d, DB** out) {
    int inc = sh->incarnation; Status s;
    if (C().group) {   // all databases in one directory: the group's own (never closed by itself), and named ones
        if (!d) return grp->openDefaultDB(out);
        char n[16]; snprintf(n, sizeof n, "name%d", d); return inc & 1 ? grp->openDB(out, n) : grp->openDB(out, n, dbcfg(inc)); }
    s = DB::open(out, dbpath(d), dbcfg(inc)); return s;
}
Status close_db(int, DB* h) { return DB::close(h); }   // of the default database of a group: has no effect until the group is closed
// ------------------------------------------------------------------------------------ recovery
void observe(int d, DB* db, Obs& o, uint64_t& n) {
    Cfg& c = C(); memset(&o, 0, sizeof o); n = maxseq(db);
    uint64_t fl = 0; { Status s = db->getLastFlushedSeqNum(fl); if (!s || fl == (uint64_t)-1) fl = 0; }
    uint64_t mn = 0; { Status s = db->getMinSeqNum(mn); if (!s || mn == (uint64_t)-1) mn = 0; }
    // everything still in the log, by number
    uint64_t from = std::max(mn ? mn : 1, n > 400 ? n - 400 : 1);
    for (uint64_t q = from; q <= n; ++q) { Record r; Record::Holder h(r); Status s = db->getRecord(q, r); if (!s) continue; if (r.seqNum != q) violation("kv-getrecord", "getRecord(%llu) returned number %llu", (unsigned long long)q, (unsigned long long)r.seqNum);
        int k = key_index(r.kv.key); if (k < 0) violation("kv-invented", "getRecord(%llu) returned a key nobody wrote", (unsigned long long)q);
        if (r.isIns()) { uint32_t op = dec(d, k, r.kv.value, "getRecord after open"); chk_meta(op, r.meta, "getRecord after open"); learn_seq(op, q, "getRecord after open"); } else if (r.isDel()) find_delete(d, k, q); }
    Iterator it; Status s = it.init(db); if (!s) violation("kv-open-scan", "iterator on the freshly opened db%d failed with %d", d, (int)s.getValue());
    int last = -1;
    do { Record r; Record::Holder h(r); s = it.get(r); if (!s) break; int k = key_index(r.kv.key); if (k < 0) violation("kv-invented", "scan after open of db%d returned a key nobody wrote (%u bytes)", d, r.kv.key.size);
        if (k <= last) violation("kv-scan-order", "scan after open of db%d: key%d after key%d", d, k, last); last = k;
        uint32_t op = dec(d, k, r.kv.value, "scan after open"); chk_meta(op, r.meta, "scan after open"); learn_seq(op, r.seqNum, "scan after open"); o.op[k] = op;
        if (r.seqNum > n) violation("kv-max-seq", "after open db%d reports maximum sequence number %llu but holds %llu", d, (unsigned long long)n, (unsigned long long)r.seqNum);
    } while (it.next().ok());
    it.close();
    for (int k = 0; k < c.nkey; ++k) { SizedBuf v; Status s = db->get(keyb(k), v); uint32_t op = 0; if (s) { op = dec(d, k, v, "get after open"); v.free(); } else if (s != Status::KEY_NOT_FOUND) violation("kv-open-get", "get on the freshly opened db%d failed with %d", d, (int)s.getValue());
        if (op != o.op[k]) { char b1[200], b2[200]; std::string l; char b3[200]; NoPreempt np; for (int i = 0; i < H->nw && l.size() < 900; ++i) if (H->w[i].db == d && H->w[i].key == k) { l += "; "; l += opname(i + 1, b3, sizeof b3); }
            violation("kv-scan-get", "after open, key%d of db%d: scan shows %s, get shows %s (max %llu, written%s)", k, d, opname(o.op[k], b1, sizeof b1), opname(op, b2, sizeof b2), (unsigned long long)n, l.c_str()); }
        Record r; Record::Holder h(r); s = db->getRecordByKey(keyb(k), r, true); if (s && r.isDel()) find_delete(d, k, r.seqNum); }
}
void recover(int d) {
    int inc = sh->incarnation; DB* db = mainh[d];
    Obs o; uint64_t n; bool fe = faults_enabled(); set_faults_enabled(false); observe(d, db, o, n); 
    if (S().seen_inc[d] < 0 && false) {}
    { NoPreempt np; int prev = S().seen_inc[d];
      if (prev < 0) { for (int k = 0; k < C().nkey; ++k) if (o.op[k]) violation("kv-invented", "a fresh database is not empty"); H->N[inc][d] = n; for (int k = 0; k < C().nkey; ++k) H->base[inc][d][k] = 0; }
      else { check_recovery(inc, d, n, o, S().crashed_since[d], faulty()); SIM_PROBE("kv_recovery_checked"); if (n) SIM_PROBE("kv_recovered_nonempty"); }
      S().seen_inc[d] = inc; S().crashed_since[d] = true; /* until it is closed cleanly */ }
    { uint64_t f = 0; Status s = db->getLastFlushedSeqNum(f); H->F[inc][d] = s && f != (uint64_t)-1 ? f : 0; }
    set_faults_enabled(fe);
}
// ------------------------------------------------------------------------------------ clients
struct Snap { DB* h; int db, view; uint64_t chk; int known[MAXKEY]; };
struct Client {
    int id, inc; DB* db[MAXDB]; Snap sn[MAXSNAP]; Rng r; Client() : r(1) {}
};
void drop_view(int v) { H->v[v].ret = 0; }
bool still(DB*) { return true; }
void finish_w(DB* db, uint32_t op, Status s, const char* what, int d) {
    if (!s) { if (unexpected(s)) bad_status(what, s, d); finish_write(op, MAYBE, INF); SIM_PROBE("kv_write_error"); return; }
    uint64_t hi = maxseq(db); finish_write(op, ACKED, hi);
}
void probe_seq(Client& cl, int d, uint32_t op) {
    // learn the write's own number by reading the record back
    Write& w = H->w[op - 1]; DB* db = cl.db[d]; Record r; Record::Holder h(r); uint32_t rd = new_read(d, w.key, cl.id, 1);
    Status s = db->getRecordByKey(keyb(w.key), r, true);
    if (!s) { if (s == Status::KEY_NOT_FOUND) finish_read(rd, 0); else { drop_read(rd); if (unexpected(s)) bad_status("getRecordByKey", s, d); } return; }
    if (r.isDel()) { finish_read(rd, 0); find_delete(d, w.key, r.seqNum); return; }
    uint32_t o = by_seq(d, r.seqNum); drop_read(rd);
    if (!o) { // value not loaded in meta-only mode: identify by metadata or by the own write
        if (w.hasmeta && r.meta.size >= 8) { uint32_t x; memcpy(&x, r.meta.data, 4); if (x && (int)x <= H->nw && H->w[x - 1].key == w.key && H->w[x - 1].db == d) { chk_meta(x, r.meta, "getRecordByKey(meta)"); learn_seq(x, r.seqNum, "getRecordByKey(meta)"); } } }
}
void write_one(Client& cl, Item& it, int type, bool rec) {
    int d = it.db, k = it.key; DB* db = cl.db[d]; Status s; uint64_t lo = maxseq(db); uint32_t op = new_write(d, k, type, cl.id, lo); bool meta = rec && (it.a & 1); if (meta) H->w[op - 1].hasmeta = 1;
    if (rec) { Record r; std::string v = enc(op, 0), m = enc(op, 7); r.kv.key = keyb(k); if (!type) r.kv.value = SizedBuf(v); if (meta) r.meta = SizedBuf(m); r.type = type ? Record::DELETION : Record::INSERTION;
        s = type ? db->delRecord(r) : db->setRecordByKey(r); }
    else if (type) s = db->del(keyb(k));
    else { std::string v = enc(op, 0); s = db->set(KV(keyb(k), SizedBuf(v))); }
    finish_w(db, op, s, type ? "del" : "set", d);
    if (s && C().probe > 0 && (it.b % 1000) < C().probe * 1000) probe_seq(cl, d, op);
}
void write_sn(Client& cl, Item& it) {
    int d = it.db, k = it.key; DB* db = cl.db[d]; uint64_t lo = maxseq(db), seq = lo + 1 + (it.a % 4 ? 0 : it.b % 20); bool del = it.a % 5 == 0;
    uint32_t op = new_write(d, k, del, cl.id, lo); { Write& w = H->w[op - 1]; w.custom = 1; w.lo = seq - 1; w.hi = seq; }
    std::string v = enc(op, 0); Status s = del ? db->delSN(seq, keyb(k)) : db->setSN(seq, KV(keyb(k), SizedBuf(v))); finish_w(db, op, s, "setSN", d);
}
void fill_batch(Item& it, int d, int cl, std::list<Record>& b, std::vector<std::string>& keep, uint32_t& first, int& n, uint64_t lo, int gid) {
    Rng r(it.b + d * 77); n = r.range(1, 7); if (r.onein(12)) n = r.range(8, 24); first = 0; keep.reserve(60);
    for (int i = 0; i < n; ++i) { int k = r.onein(6) ? (int)it.key : (int)r.below(C().nkey); bool del = r.onein(5), meta = r.onein(3); uint32_t op = new_write(d, k, del, cl, lo); if (!first) first = op; if (meta) H->w[op - 1].hasmeta = 1;
        Record rec; rec.kv.key = keyb(k); keep.push_back(enc(op, 0)); if (!del) rec.kv.value = SizedBuf(keep.back()); keep.push_back(enc(op, 7)); if (meta) rec.meta = SizedBuf(keep.back()); rec.type = del ? Record::DELETION : Record::INSERTION; b.push_back(rec); }
    link_batch(first, n, gid);
}
void do_batch(Client& cl, Item& it) {
    int d = it.db; DB* db = cl.db[d]; std::list<Record> b; std::vector<std::string> keep; uint32_t first; int n; uint64_t lo = maxseq(db);
    bool badb = it.a % 12 == 0;
    { NoPreempt np; fill_batch(it, d, cl.id, b, keep, first, n, lo, -1); }
    if (badb) { // a batch that must be rejected: decreasing custom numbers
        if (n < 2) badb = false; else { uint64_t q = lo + 500; for (auto& r : b) r.seqNum = q--; } }
    Status s = db->setRecordBatch(b);
    if (badb) { if (s) violation("kv-bad-batch", "a batch with decreasing sequence numbers was accepted"); NoPreempt np; for (int i = 0; i < n; ++i) finish_write(first + i, REJECTED, INF); SIM_PROBE("kv_rejected_batch"); return; }
    if (!s && unexpected(s)) bad_status("setRecordBatch", s, d);
    uint64_t hi = s ? maxseq(db) : INF; { NoPreempt np; for (int i = 0; i < n; ++i) finish_write(first + i, s ? ACKED : MAYBE, hi); }
    if (s && C().probe > 0 && it.b % 3 == 0) probe_seq(cl, d, first + n - 1);
}
void do_gbatch(Client& cl, Item& it) {
    Cfg& c = C(); GlobalBatch gb; std::vector<std::string> keep[MAXDB]; uint32_t first[MAXDB] = { 0 }; int n[MAXDB]; uint64_t lo[MAXDB]; uint32_t mask = it.a % ((1u << c.ndb) - 1) + 1; bool fail = false; (void)fail;
    for (int d = 0; d < c.ndb; ++d) lo[d] = maxseq(cl.db[d]);
    int order[MAXDB]; for (int i = 0; i < c.ndb; ++i) order[i] = (it.b >> 4) & 1 ? c.ndb - 1 - i : i;
    int gid; { NoPreempt np; gid = S().ngid++; }
    for (int i = 0; i < c.ndb; ++i) { int d = order[i]; if (!(mask >> d & 1)) continue; std::list<Record> b; { NoPreempt np; fill_batch(it, d, cl.id, b, keep[d], first[d], n[d], lo[d], gid); } gb.addBatch(cl.db[d], b); }
    Status s = gb.execute(); if (!s && unexpected(s)) bad_status("GlobalBatch::execute", s, it.db);
    uint64_t hi[MAXDB]; for (int d = 0; d < c.ndb; ++d) hi[d] = s ? maxseq(cl.db[d]) : INF;
    NoPreempt np; for (int d = 0; d < c.ndb; ++d) if (mask >> d & 1) for (int i = 0; i < n[d]; ++i) finish_write(first[d] + i, s ? ACKED : MAYBE, hi[d]);
}
uint32_t rd_get(Client& cl, int d, int k, bool rec, bool metaonly) {
    DB* db = cl.db[d]; uint32_t rd = new_read(d, k, cl.id, rec); uint32_t op = 0;
    if (!rec) { SizedBuf v; Status s = db->get(keyb(k), v); if (s) { op = dec(d, k, v, "get"); v.free(); } else if (s != Status::KEY_NOT_FOUND) { drop_read(rd); if (unexpected(s)) bad_status("get", s, d); return 0; } finish_read(rd, op); return op; }
    Record r; Record::Holder h(r); Status s = db->getRecordByKey(keyb(k), r, metaonly);
    if (!s) { if (s != Status::KEY_NOT_FOUND) { drop_read(rd); if (unexpected(s)) bad_status("getRecordByKey", s, d); return 0; } finish_read(rd, 0); return 0; }
    if (key_index(r.kv.key) != k) violation("kv-wrong-key", "getRecordByKey for key%d returned another key", k);
    if (r.isDel()) { if (!metaonly) violation("kv-tombstone", "getRecordByKey returned a removed record of key%d", k); finish_read(rd, 0); find_delete(d, k, r.seqNum); return 0; }
    if (metaonly && r.kv.value.empty()) { NoPreempt np; op = by_seq(d, r.seqNum); if (op) { Write& w = H->w[op - 1]; char b[200]; if (w.key != k || w.type) violation("kv-mixed", "metadata of key%d carries the sequence number of %s", k, opname(op, b, sizeof b)); chk_meta(op, r.meta, "getRecordByKey(meta)"); finish_read(rd, op); } else drop_read(rd); return op; }
    op = dec(d, k, r.kv.value, "getRecordByKey"); chk_meta(op, r.meta, "getRecordByKey"); { NoPreempt np; finish_read(rd, op); learn_seq(op, r.seqNum, "getRecordByKey"); } return op;
}
void do_getseq(Client& cl, Item& it) {
    int d = it.db; DB* db = cl.db[d]; uint64_t mx = maxseq(db), mn = 1; db->getMinSeqNum(mn); if (mn == (uint64_t)-1 || !mn) mn = 1; if (mx < mn) return; uint64_t q = mn + it.a % (mx - mn + 1);
    if (it.b & 1) q = mx - std::min<uint64_t>(mx - mn, (it.b >> 3) % 6);
    Record r; Record::Holder h(r); Status s = db->getRecord(q, r);
    if (!s) { uint64_t fl = 0; Status f = db->getLastFlushedSeqNum(fl); if (!f || fl == (uint64_t)-1) fl = 0; NoPreempt np; uint32_t o = by_seq(d, q); 
        if (o && q > fl && !faulty() && !(busy_sync() && s == Status::ALREADY_PURGED) && H->w[o - 1].fate == ACKED && H->w[o - 1].inc == sh->incarnation) { char b[200]; violation("kv-getrecord", "getRecord(%llu) failed with %d although only %llu is flushed and %s owns it", (unsigned long long)q, (int)s.getValue(), (unsigned long long)fl, opname(o, b, sizeof b)); } return; }
    if (r.seqNum != q) violation("kv-getrecord", "getRecord(%llu) returned number %llu", (unsigned long long)q, (unsigned long long)r.seqNum);
    int k = key_index(r.kv.key); if (k < 0) violation("kv-invented", "getRecord(%llu) returned a key nobody wrote", (unsigned long long)q);
    SIM_PROBE("kv_getrecord_ok"); NoPreempt np;
    if (r.isIns()) { uint32_t op = dec(d, k, r.kv.value, "getRecord"); chk_meta(op, r.meta, "getRecord"); learn_seq(op, q, "getRecord"); } else if (r.isDel()) find_delete(d, k, q);
}
void do_nearest(Client& cl, Item& it) {
    Cfg& c = C(); int d = it.db, k = it.key; DB* db = cl.db[d]; SearchOptions::Options o = (SearchOptions::Options)(it.a % 4); bool gr = o == SearchOptions::GREATER_OR_EQUAL || o == SearchOptions::GREATER, eq = o == SearchOptions::GREATER_OR_EQUAL || o == SearchOptions::SMALLER_OR_EQUAL;
    uint64_t inv = stamp(); Record r; Record::Holder h(r); Status s = db->getNearestRecordByKey(keyb(k), r, o); uint64_t ret = stamp(); (void)ret;
    if (!s && s != Status::KEY_NOT_FOUND) { if (unexpected(s)) bad_status("getNearestRecordByKey", s, d); return; }
    NoPreempt np; int rk = -1; uint32_t op = 0; if (s) { rk = key_index(r.kv.key); if (rk < 0) violation("kv-invented", "getNearest returned a key nobody wrote"); 
        if (gr ? (rk < k || (rk == k && !eq)) : (rk > k || (rk == k && !eq))) violation("kv-nearest", "getNearest(option %d) for key%d returned key%d", (int)o, k, rk);
        if (r.isIns()) { op = dec(d, rk, r.kv.value, "getNearest"); chk_meta(op, r.meta, "getNearest"); learn_seq(op, r.seqNum, "getNearest"); } else find_delete(d, rk, r.seqNum); SIM_PROBE("kv_nearest_found"); }
    int a = gr ? (eq ? k : k + 1) : (s ? rk : 0), b = gr ? (s ? rk : c.nkey - 1) : (eq ? k : k - 1);
    for (int x = a; x <= b; ++x) { uint32_t q = new_read(d, x, cl.id, 3); H->r[q].inv = inv; finish_read(q, x == rk ? op : 0); }
}
void do_prefix(Client& cl, Item& it) {
    Cfg& c = C(); if (c.keymode > 1) return; int d = it.db; DB* db = cl.db[d]; int pl; if (c.hashmode) pl = 3 + it.a % 2; else pl = 1 + it.a % 3; if (pl > c.klen[it.key]) pl = c.klen[it.key];
    std::string p(c.key[it.key], pl); int stop = it.b % 4 == 0 ? 1 + (it.b >> 4) % 3 : 0, calls = 0; uint64_t inv = stamp(); std::map<int, std::pair<uint64_t, uint32_t>> best; bool after = false; uint64_t prevseq[MAXKEY] = { 0 };
    Status s = db->getRecordsByPrefix(SizedBuf(p), [&](const SearchCbParams& sp) -> SearchCbDecision {
        if (after) violation("kv-prefix-stop", "prefix search went on after the callback said stop"); calls++; NoPreempt np;
        int k = key_index(sp.rec.kv.key); if (k < 0 || memcmp(sp.rec.kv.key.data, p.data(), pl)) violation("kv-prefix", "prefix search returned a key that does not match");
        uint32_t op = 0; if (sp.rec.isIns()) { op = dec(d, k, sp.rec.kv.value, "prefix search"); chk_meta(op, sp.rec.meta, "prefix search"); learn_seq(op, sp.rec.seqNum, "prefix search"); } else find_delete(d, k, sp.rec.seqNum);
        auto e = best.find(k); if (e == best.end()) best[k] = { sp.rec.seqNum, op }; else if (e->second.first < sp.rec.seqNum) { if (c.ncl[sh->incarnation] > 1) e->second = { sp.rec.seqNum, op };   /* a flush moved a newer version from the logs, searched already, to the tables */ else violation("kv-prefix-order", "prefix search delivered an older version of key%d (sequence number %llu) before a newer one (%llu)", k, (unsigned long long)e->second.first, (unsigned long long)sp.rec.seqNum); }
        if (stop && calls >= stop) { after = true; return SearchCbDecision::STOP; } return SearchCbDecision::NEXT; });
    if (!s && s != Status::KEY_NOT_FOUND && s != Status::OPERATION_STOPPED) { if (unexpected(s)) bad_status("getRecordsByPrefix", s, d); return; }
    NoPreempt np; for (int k = 0; k < c.nkey; ++k) if (c.klen[k] >= pl && !memcmp(c.key[k], p.data(), pl)) { auto e = best.find(k); if (after && e == best.end()) continue; uint32_t q = new_read(d, k, cl.id, 4); H->r[q].inv = inv; finish_read(q, e == best.end() ? 0 : e->second.second); SIM_PROBE("kv_prefix_key"); }
}
// walk an iterator; returns list of (key, op)
struct Ent { int k; uint32_t op; uint64_t seq; };
bool itr_get(Iterator& itr, int d, Ent& e, const char* how) {
    Record r; Record::Holder h(r); Status s = itr.get(r); if (!s) { if (s != Status::KEY_NOT_FOUND && s != Status::OUT_OF_RANGE && s != Status::INVALID_RECORD && unexpected(s)) SIM_PROBE("kv_itr_get_status"); return false; }
    e.k = key_index(r.kv.key); if (e.k < 0) violation("kv-invented", "%s returned a key nobody wrote", how); if (!r.isIns()) violation("kv-itr-tombstone", "%s returned a removed record of key%d", how, e.k);
    NoPreempt np; e.op = dec(d, e.k, r.kv.value, how); chk_meta(e.op, r.meta, how); learn_seq(e.op, r.seqNum, how); e.seq = r.seqNum; return true;
}
void walk(Iterator& itr, int d, int ka, int kb, const char* how, std::vector<Ent>& out) {
    int last = -1; for (;;) { Ent e; if (!itr_get(itr, d, e, how)) break; if (e.k <= last) violation("kv-itr-order", "%s on db%d returned key%d after key%d", how, d, e.k, last); if (e.k < ka || e.k > kb) violation("kv-itr-range", "%s on db%d returned key%d outside key%d..key%d", how, d, e.k, ka, kb); last = e.k; out.push_back(e); if (!itr.next()) break; }
}
void navigate(Iterator& itr, int d, int ka, int kb, const std::vector<Ent>& L, Rng& r, int steps) {
    // position -1 / n: a failed prev / next left the cursor on something that is not shown (a removed record); UNKNOWN: a seek without a match
    Cfg& c = C(); int n = L.size(); const int UNKNOWN = -2; std::string hist = "end of a forward walk"; char b[64];
    auto at = [&](int p) { return p >= 0 && p < n ? L[p].k : -1; };
    auto expect = [&](int pos) { Ent e; bool g = itr_get(itr, d, e, "iterator navigation");
        if (!g) violation("kv-itr-nav", "iterator over %d records shows nothing at position %d (key%d) after: %s", n, pos, at(pos), hist.c_str());
        if (e.k != L[pos].k || e.op != L[pos].op) violation("kv-itr-nav", "iterator over %d records is at key%d (op%u), expected key%d (op%u), after: %s", n, e.k, e.op, L[pos].k, L[pos].op, hist.c_str()); };
    auto edge = [&](bool hi) { Ent e; if (!itr_get(itr, d, e, "iterator navigation")) return hi ? n : -1; int pos = hi ? n - 1 : 0;
        if (!n || e.k != L[pos].k || e.op != L[pos].op) violation("kv-itr-nav", "after a failed move at the %s of %d records the iterator shows key%d (op%u), edge is key%d, after: %s", hi ? "end" : "beginning", n, e.k, e.op, at(pos), hist.c_str()); return pos; };
    int pos = edge(true);
    for (int i = 0; i < steps; ++i) { Status s; int m = r.below(10);
        if (m < 6) { bool fwd = m >= 3; s = fwd ? itr.next() : itr.prev(); hist += fwd ? ", next" : ", prev"; if (pos == UNKNOWN) { continue; }
            int to = fwd ? pos + 1 : pos - 1; if (to > n) to = n; if (to < -1) to = -1; bool can = to >= 0 && to < n;
            if (s && !can) { Ent e; bool g = itr_get(itr, d, e, "iterator navigation"); violation("kv-itr-nav", "%s succeeded at the edge of %d records (now key%d op%u, edge key%d) after: %s", fwd ? "next" : "prev", n, g ? e.k : -1, g ? e.op : 0, at(fwd ? n - 1 : 0), hist.c_str()); }
            if (!s && can) violation("kv-itr-nav", "%s failed (%d) at position %d of %d after: %s", fwd ? "next" : "prev", (int)s.getValue(), pos, n, hist.c_str());
            if (s) { pos = to; expect(pos); } else pos = edge(fwd); }
        else if (m == 6 || m == 7) { s = m == 6 ? itr.gotoBegin() : itr.gotoEnd(); hist += m == 6 ? ", gotoBegin" : ", gotoEnd"; if (!n) { Ent e; if (itr_get(itr, d, e, "iterator navigation")) violation("kv-itr-nav", "empty iterator shows key%d after: %s", e.k, hist.c_str()); pos = UNKNOWN; continue; } pos = m == 6 ? 0 : n - 1; if (!s) violation("kv-itr-nav", "goto failed (%d) on %d records after: %s", (int)s.getValue(), n, hist.c_str()); expect(pos); }
        else { int k = r.below(c.nkey); bool g = r.onein(2); if (k < ka || k > kb) continue; s = itr.seek(keyb(k), g ? Iterator::GREATER : Iterator::SMALLER); snprintf(b, sizeof b, ", seek(key%d,%s)", k, g ? "greater" : "smaller"); hist += b; int p = -1;
            if (g) { for (int j = 0; j < n; ++j) if (L[j].k >= k) { p = j; break; } } else { for (int j = n - 1; j >= 0; --j) if (L[j].k <= k) { p = j; break; } }
            if (p >= 0) { if (!s) violation("kv-itr-nav", "seek failed (%d) although position %d of %d matches, after: %s", (int)s.getValue(), p, n, hist.c_str()); pos = p; expect(pos); } else pos = UNKNOWN; }
    }
}
void snap_changed(Snap& sn, int d, int k, uint32_t op, const char* how) {
    char b1[200], b2[200]; const char* e = sn.chk ? chk_excuse(sh->incarnation, d, sn.chk) : nullptr; if (e && !prop_is("C09")) { SIM_PROBE("kv_excused_checkpoint_view"); return; }
    violation("kv-snap-changed", "%s of db%d (checkpoint %llu): key%d first read as %s, %s %s", e ? e : "snapshot", d, (unsigned long long)sn.chk, k, opname(sn.known[k], b1, sizeof b1), how, opname(op, b2, sizeof b2));
}
void do_iter(Client& cl, Item& it, DB* db, int d, Snap* sn) {
    Cfg& c = C(); int ka = 0, kb = c.nkey - 1; SizedBuf a, b; Rng r(it.b); if (it.a % 3 == 0) { ka = r.below(c.nkey); a = keyb(ka); } if (it.a % 4 == 0) { kb = ka + r.below(c.nkey - ka); b = keyb(kb); }
    int v = -1; if (!sn) v = new_view(d, cl.id, 0); Iterator itr; Status s = itr.init(db, a, b); if (v >= 0) view_ret(v);
    if (!s) { if (v >= 0) drop_view(v); if (unexpected(s)) bad_status("Iterator::init", s, d); return; }
    std::vector<Ent> L; 
    if (r.onein(4)) sleep_ns(r.below(3000000));
    walk(itr, d, ka, kb, sn ? "iterator on a snapshot" : "iterator", L);
    if (faulty()) { if (v >= 0) drop_view(v); itr.close(); return; }
    { NoPreempt np; 
      if (v >= 0) { size_t j = 0; for (int k = ka; k <= kb; ++k) { if (j < L.size() && L[j].k == k) view_add(v, k, L[j++].op); else view_add(v, k, 0); } }
      else { size_t j = 0; for (int k = ka; k <= kb; ++k) { uint32_t op = j < L.size() && L[j].k == k ? L[j++].op : 0; char b1[200], b2[200];
          if (sn->known[k] >= 0 && (uint32_t)sn->known[k] != op) snap_changed(*sn, d, k, op, "an iterator now shows");
          if (sn->known[k] < 0) { sn->known[k] = op; view_add(sn->view, k, op); } } } }
    if (L.size()) SIM_PROBE("kv_iter_nonempty");
    if (r.onein(2)) navigate(itr, d, ka, kb, L, r, r.range(1, 14));
    s = itr.close(); if (!s && unexpected(s)) bad_status("Iterator::close", s, d);
}
void do_sniter(Client& cl, Item& it) {
    int d = it.db; DB* db = cl.db[d]; uint64_t mn = (uint64_t)-1, mx = (uint64_t)-1, cur = maxseq(db); Rng r(it.b); if (it.a % 3 == 0) mn = 1 + r.below(cur + 1); if (it.a % 4 == 0) mx = (mn == (uint64_t)-1 ? 1 : mn) + r.below(cur + 1);
    int v = new_view(d, cl.id, 4); Iterator itr; Status s = itr.initSN(db, mn, mx); view_ret(v); if (!s) { drop_view(v); if (unexpected(s) && s != Status::SEQINDEX_UNAVAILABLE) bad_status("Iterator::initSN", s, d); return; }
    uint64_t last = 0; bool got[MAXKEY] = { 0 }; uint32_t lop[MAXKEY] = { 0 };
    for (;;) { Record rc; Record::Holder h(rc); s = itr.get(rc); if (!s) break; int k = key_index(rc.kv.key); if (k < 0) violation("kv-invented", "sequence iterator returned a key nobody wrote");
        if (last && rc.seqNum <= last) violation("kv-snitr-order", "sequence iterator on db%d returned %llu after %llu", d, (unsigned long long)rc.seqNum, (unsigned long long)last); last = rc.seqNum;
        if ((mn != (uint64_t)-1 && rc.seqNum < mn) || (mx != (uint64_t)-1 && rc.seqNum > mx)) violation("kv-snitr-range", "sequence iterator returned %llu outside %lld..%lld", (unsigned long long)rc.seqNum, (long long)mn, (long long)mx);
        { NoPreempt np; uint32_t op = 0; if (rc.isIns()) { op = dec(d, k, rc.kv.value, "sequence iterator"); chk_meta(op, rc.meta, "sequence iterator"); learn_seq(op, rc.seqNum, "sequence iterator"); } else find_delete(d, k, rc.seqNum);
        got[k] = true; lop[k] = op; } if (!itr.next()) break; }
    itr.close(); NoPreempt np; if (faulty() || mn != (uint64_t)-1 || mx != (uint64_t)-1 || !C().perf[sh->incarnation].seqidx) { drop_view(v); return; }
    for (int k = 0; k < C().nkey; ++k) view_add(v, k, got[k] ? lop[k] : 0);
    SIM_PROBE("kv_sniter_full");
}
void snap_close(Client& cl, int i) { Snap& sn = cl.sn[i]; if (!sn.h) return; Status s = DB::close(sn.h); sn.h = nullptr; if (!s && unexpected(s)) bad_status("close of a snapshot", s, sn.db); }
// A checkpoint that was listed stays listed until maxKeepingCheckpoints newer ones exist or a compaction rewrites the level-0 tables (single client and no background compaction only: the listing and the operations that may end a checkpoint must not overlap).
struct ChkSeen { int inc; uint32_t ep; int n; uint64_t q[64]; }; ChkSeen cks[MAXDB]; uint32_t chkep[MAXDB];
void chk_listing(DB* db, int d) {
    Cfg& c = C(); if (c.ncl[sh->incarnation] != 1 || c.compactors || c.flushers || faulty()) return; std::list<uint64_t> l; Status s = db->getCheckpoints(l); if (!s) return; SIM_PROBE("kv_checkpoint_listing");
    ChkSeen& x = cks[d]; if (x.inc != sh->incarnation + 1 || x.ep != chkep[d]) { x.inc = sh->incarnation + 1; x.ep = chkep[d]; x.n = 0; }
    if (l.size() > (size_t)c.maxchk) violation("kv-chk-list", "db%d lists %zu checkpoints, the limit is %d", d, l.size(), c.maxchk);
    uint64_t prev = 0; bool first = true; for (auto q : l) { if (!first && q <= prev) violation("kv-chk-list", "the checkpoints of db%d are not listed in increasing order", d); prev = q; first = false; }
    for (int i = 0; i < x.n; ++i) { bool in = false; size_t newer = 0; for (auto q : l) { if (q == x.q[i]) in = true; if (q > x.q[i]) ++newer; } if (in) continue; if (newer < (size_t)c.maxchk) violation("kv-chk-list", "checkpoint %llu of db%d was listed and is gone although only %zu newer ones are kept (limit %d) and no compaction ran", (unsigned long long)x.q[i], d, newer, c.maxchk); }
    x.n = 0; for (auto q : l) if (x.n < 64) x.q[x.n++] = q;
}
void do_snapopen(Client& cl, Item& it, bool chk) {
    int d = it.db; DB* db = cl.db[d]; int slot = -1; for (int i = 0; i < MAXSNAP; ++i) if (!cl.sn[i].h) slot = i; if (slot < 0) { slot = it.a % MAXSNAP; snap_close(cl, slot); }
    Snap& sn = cl.sn[slot]; uint64_t cp = 0;
    if (chk) { std::list<uint64_t> l; Status s = db->getCheckpoints(l); if (!s) { if (unexpected(s) && s != Status::KEY_NOT_FOUND) bad_status("getCheckpoints", s, d); return; } if (l.empty()) return; int x = it.b % l.size(); auto e = l.begin(); while (x--) ++e; cp = *e; }
    int v = new_view(d, cl.id, chk ? 2 : 1); DB* h = nullptr; Status s = db->openSnapshot(&h, cp); view_ret(v); { NoPreempt np; H->v[v].mfix = cp; }
    if (!s) { drop_view(v); if (h) violation("kv-snap", "openSnapshot failed with %d but returned a handle", (int)s.getValue());
        if (chk && unexpected(s)) { std::list<uint64_t> l; db->getCheckpoints(l); bool listed = false; for (auto x : l) if (x == cp) listed = true; if (listed) violation("kv-chk-open", "checkpoint %llu of db%d is listed but opening it failed with %d", (unsigned long long)cp, d, (int)s.getValue()); }
        else if (unexpected(s)) bad_status("openSnapshot", s, d); return; }
    if (!h) violation("kv-snap", "openSnapshot returned OK without a handle");
    sn.h = h; sn.db = d; sn.view = v; sn.chk = cp; for (int k = 0; k < MAXKEY; ++k) sn.known[k] = -1; if (chk) SIM_PROBE("kv_checkpoint_opened"); else SIM_PROBE("kv_snapshot_opened");
}
void do_snapread(Client& cl, Item& it) {
    Cfg& c = C(); int slot = -1; for (int i = 0; i < MAXSNAP; ++i) { int j = (i + it.a) % MAXSNAP; if (cl.sn[j].h) { slot = j; break; } } if (slot < 0) { do_snapopen(cl, it, it.b % 5 == 0); return; }
    Snap& sn = cl.sn[slot]; int d = sn.db; if (it.a % 3 == 0) { do_iter(cl, it, sn.h, d, &sn); return; }
    int n = it.a % 5 == 1 ? c.nkey : 1 + it.b % 4;
    for (int q = 0; q < n; ++q) { int k = n == c.nkey ? q : (it.key + q * 3) % c.nkey; uint32_t op = 0; Status s; 
        if ((it.b + q) % 2) { SizedBuf v; s = sn.h->get(keyb(k), v); if (s) { op = dec(d, k, v, "get on a snapshot"); v.free(); } }
        else { Record r; Record::Holder h(r); s = sn.h->getRecordByKey(keyb(k), r); if (s) { op = dec(d, k, r.kv.value, "getRecordByKey on a snapshot"); chk_meta(op, r.meta, "snapshot"); NoPreempt np; learn_seq(op, r.seqNum, "snapshot"); } }
        if (!s && s != Status::KEY_NOT_FOUND) { if (unexpected(s)) bad_status("get on a snapshot", s, d); continue; }
        NoPreempt np; char b1[200], b2[200]; if (sn.known[k] >= 0 && (uint32_t)sn.known[k] != op) snap_changed(sn, d, k, op, "now");
        if (sn.known[k] < 0) { sn.known[k] = op; view_add(sn.view, k, op); } }
}
void do_seqs(Client& cl, Item& it) {
    int d = it.db; DB* db = cl.db[d]; int o; { NoPreempt np; if (H->nobs >= MAXOBS) return; o = H->nobs++; memset(&H->obs[o], 0, sizeof(SeqObs)); } SeqObs& x = H->obs[o]; x.db = d; x.inc = sh->incarnation; x.inv = stamp(); uint64_t v; uint8_t m = 0; static const uint8_t ord[4] = { 3, 2, 0, 1 };
    for (int i = 0; i < 4; ++i) { int w = ord[(i + it.a) % 4]; v = 0; Status s = w == 0 ? db->getMaxSeqNum(v) : w == 1 ? db->getMinSeqNum(v) : w == 2 ? db->getLastSyncedSeqNum(v) : db->getLastFlushedSeqNum(v); if (s && v != (uint64_t)-1) { x.v[w] = v; m |= 1 << w; } }
    NoPreempt np; x.mask = m; x.ret = stamp();
}
void do_async(Client& cl, Item& it) {
    if (!C().flushers) return;   // nobody would ever run it
    int d = it.db; DB* db = cl.db[d]; FlushOptions o; o.syncOnly = it.a & 1; o.callFsync = it.a >> 1 & 1; o.beyondLastSync = it.a >> 2 & 1; o.execDelayUs = it.a >> 3 & 1 ? 1000 * (1 + it.b % 400) : 0; if (it.a >> 4 & 1) o.numFilesLimit = 1 + it.b % 3;
    int i; { NoPreempt np; if (S().nasync >= MAXASYNC) return; i = S().nasync++; } AsyncRec& a = S().as[i]; a.db = d; a.inc = sh->incarnation; a.fsync = o.callFsync; a.count = 0; a.done = 0; a.inv = stamp();
    Status s = db->flushLogsAsync(o, [i, d](Status st, void*) { NoPreempt np; AsyncRec& a = S().as[i]; if (a.inc != sh->incarnation) harness_error("async"); a.count++; if (a.count > 1) violation("kv-async-twice", "the handler of an asynchronous flush was invoked %d times", a.count); a.status = st.getValue(); a.donest = stamp(); if (st && a.fsync) add_sync(d, true, a.inv, 2); SIM_PROBE("kv_async_done"); if (st) SIM_PROBE("kv_async_ok"); }, nullptr);
    if (!s) { NoPreempt np; if (unexpected(s) && s != Status::INVALID_MODE) bad_status("flushLogsAsync", s, d); a.done = 2; if (a.count) violation("kv-async-twice", "flushLogsAsync failed but its handler ran"); }
}
bool cok(Status s) { return s || s == Status::TABLE_NOT_FOUND || s == Status::OPERATION_IN_PROGRESS || s == Status::COMPACTION_CANCELLED || s == Status::INVALID_LEVEL || s == Status::INVALID_PARAMETERS || s == Status::INVALID_CONFIG || s == Status::NOT_IMPLEMENTED; }
void reopen(Client& cl, int d) {
    for (int i = 0; i < MAXSNAP; ++i) if (cl.sn[i].h && cl.sn[i].db == d) snap_close(cl, i);
    if (!C().perclient) return;
    DB* h = cl.db[d]; cl.db[d] = nullptr; Status s = close_db(d, h); if (!s && unexpected(s)) bad_status("DB::close", s, d);
    if (cl.r.onein(3)) sleep_ns(cl.r.below(20000000));
    for (int t = 0;; ++t) { s = open_db(d, &cl.db[d]); if (s) break; if (!faulty()) { if (t < 2000 && s == Status::HANDLE_IS_BEING_CLOSED) { sleep_ns(1000000); continue; } violation("kv-open", "DB::open of db%d failed with %d while other threads open and close it", d, (int)s.getValue()); } if (t > 3) { set_faults_enabled(false); } if (t > 10) violation("kv-open", "DB::open of db%d still fails with %d after the faults stopped", d, (int)s.getValue()); }
    if (!cl.db[d]) violation("kv-open", "DB::open returned OK without a handle");
    SIM_PROBE("kv_reopened");
}
void run_op(Client& cl, Item& it) {
    Cfg& c = C(); int d = it.db; DB* db = cl.db[d]; Status s; CompactOptions co; co.ignoreThreshold = it.a & 1; co.preserveTombstone = (it.a >> 1) % 8 == 0; co.doNotRemoveOldFile = false;
    if (it.op == CL0 || it.op == CLV || it.op == CIN || it.op == CIDX || it.op == SPLIT || it.op == MERGE) ++chkep[d]; auto comp = [&](Status s, const char* w) { if (s) SIM_PROBE("kv_compaction_ok"); if (!cok(s) && unexpected(s)) bad_status(w, s, d); };
    switch (it.op) {
    case SET: write_one(cl, it, 0, false); break; case SETREC: write_one(cl, it, 0, true); break; case DEL: write_one(cl, it, 1, false); break; case DELREC: write_one(cl, it, 1, true); break; case SETSN: write_sn(cl, it); break;
    case BATCH: do_batch(cl, it); break; case GBATCH: do_gbatch(cl, it); break;
    case GET: rd_get(cl, d, it.key, false, false); break; case GETREC: rd_get(cl, d, it.key, true, it.a % 4 == 0); break; case GETSEQ: do_getseq(cl, it); break;
    case NEAREST: do_nearest(cl, it); break; case PREFIX: do_prefix(cl, it); break; case ITER: do_iter(cl, it, db, d, nullptr); break; case SNITER: do_sniter(cl, it); break;
    case SNAPOPEN: do_snapopen(cl, it, false); break; case SNAPREAD: do_snapread(cl, it); break; case SNAPCLOSE: snap_close(cl, it.a % MAXSNAP); break; case CHKOPEN: do_snapopen(cl, it, true); break;
    case CHECKPOINT: { uint64_t q = 0, inv = stamp(); bool f = it.a & 1; s = db->checkpoint(q, f); if (s) { chk_listing(db, d); NoPreempt np; add_sync(d, f, inv, 1); SIM_PROBE("kv_checkpoint"); 
            uint64_t fl = 0; for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.db == d && w.inc == sh->incarnation && w.fate == ACKED && !w.base && w.ret < inv && w.lo + 1 > fl) fl = w.lo + 1; } if (q < fl) violation("kv-chk", "checkpoint returned %llu although %llu was acknowledged before", (unsigned long long)q, (unsigned long long)fl); }
        else if (!(s == Status::OPERATION_IN_PROGRESS && busy_sync()) && unexpected(s)) bad_status("checkpoint", s, d); break; }
    case SYNC: case SYNCF: { uint64_t inv = stamp(); bool f = it.op == SYNCF; s = db->sync(f); if (s) { NoPreempt np; add_sync(d, f, inv, 0); } else if (!(s == Status::OPERATION_IN_PROGRESS && busy_sync()) && unexpected(s)) bad_status("sync", s, d); break; }
    case SYNCNW: { uint64_t inv = stamp(); bool f = it.a & 1; s = db->syncNoWait(f); if (s) { NoPreempt np; add_sync(d, f, inv, 0); } else if (s != Status::OPERATION_IN_PROGRESS && unexpected(s)) bad_status("syncNoWait", s, d); break; }
    case FLUSH: { FlushOptions o; o.beyondLastSync = it.a & 1; if (it.a % 5 == 0) o.numFilesLimit = 1 + it.b % 3; uint64_t q = -1; if (it.a % 7 == 0) { q = maxseq(db); q = q ? 1 + it.b % q : (uint64_t)-1; } else if (it.a % 7 < 4 && prop_is("C06")) { ChkSeen& x = cks[d]; if (x.inc == sh->incarnation + 1 && x.n) q = x.q[it.b % x.n]; } s = db->flushLogs(o, q); chk_listing(db, d); if (s) SIM_PROBE("kv_flush_ok"); 
        if (!s && s != Status::OPERATION_IN_PROGRESS && s != Status::LOG_NOT_SYNCED && s != Status::ALREADY_FLUSHED && unexpected(s)) bad_status("flushLogs", s, d); break; }
    case FLUSHASYNC: do_async(cl, it); break;
    case CL0: { { NoPreempt np; H->comp[d]++; } s = db->compactL0(co, it.b % c.l0parts); { NoPreempt np; if (cok(s) || s) H->comp[d]--; } comp(s, "compactL0"); break; } case CLV: comp(db->compactLevel(co, 1 + it.b % 3), "compactLevel"); break; case CIN: comp(db->compactInplace(co, c.nextlv ? 1 + it.b % 2 : 0), "compactInplace"); break; case CIDX: comp(db->compactIdxUpto(co, it.b % 12), "compactIdxUpto"); break;
    case SPLIT: comp(db->splitLevel(co, 1 + it.b % 2), "splitLevel"); break; case MERGE: comp(db->mergeLevel(co, 1 + it.b % 2), "mergeLevel"); break;
    case STATS: { DBStats st; s = db->getStats(st); if (!s && unexpected(s)) bad_status("getStats", s, d); break; }
    case SAMPLE: { std::list<SizedBuf> l; s = db->getSampleKeys(SamplingParams(1 + it.a % 10, it.b & 1), l); if (!s && unexpected(s)) bad_status("getSampleKeys", s, d); for (auto& x : l) { if (key_index(x) < 0) violation("kv-invented", "getSampleKeys returned a key nobody wrote"); x.free(); } break; }
    case SEQS: do_seqs(cl, it); break; case SLEEP: sleep_ns((it.a % 4 == 0 ? 1000000000ull : it.a % 4 == 1 ? 100000000ull : 2000000ull) * (1 + it.b % 4)); break;
    case REOPEN: reopen(cl, d); break;
    case FULL: for (int k = 0; k < c.nkey; ++k) rd_get(cl, d, (k + it.key) % c.nkey, it.a & 1, false); break;
    }
}
void client(int id) {
    Cfg& c = C(); int inc = sh->incarnation; char nm[16]; snprintf(nm, sizeof nm, "client%d", id); set_name(nm);
    Client cl; cl.id = id; cl.inc = inc; memset(cl.sn, 0, sizeof cl.sn); cl.r = Rng(rseed(300 + inc * 10 + id));
    for (int d = 0; d < c.ndb; ++d) { if (c.perclient) { for (int t = 0;; ++t) { Status s = open_db(d, &cl.db[d]); if (s) break; if (!faulty() || t > 10) violation("kv-open", "opening the already open db%d failed with %d", d, (int)s.getValue()); if (t > 3) set_faults_enabled(false); } if (c.mainholds && cl.db[d] != mainh[d]) violation("kv-open", "two opens of db%d gave different handles", d); } else cl.db[d] = mainh[d]; }
    for (int i = 0; i < c.nops[inc]; ++i) { if (!item_on(inc * MAXCL + id, i)) continue; Item& it = c.prog[inc][id][i];
        if (verbose) if (NoPreempt vnp; true) dbg("%s db%d key%d a=%u b=%u", opn[it.op], it.db, it.key, it.a, it.b);
        { NoPreempt np; ctl->work++; } run_op(cl, it); if (verbose > 1) dbg("done %s", opn[it.op]); }
    for (int i = 0; i < MAXSNAP; ++i) { if (cl.sn[i].h && cl.r.onein(2)) { Item it = { SNAPREAD, 0, 0, 1, 0 }; it.a = 5 * (uint32_t)i + 1; if (cl.sn[it.a % MAXSNAP].h) do_snapread(cl, it); } snap_close(cl, i); }
    if (c.perclient) for (int d = 0; d < c.ndb; ++d) { Status s = close_db(d, cl.db[d]); if (!s && unexpected(s)) bad_status("DB::close", s, d); }
}
void wait_async(bool after_shutdown) {
    for (int i = 0; i < S().nasync; ++i) { AsyncRec& a = S().as[i]; if (a.inc != sh->incarnation || a.done == 2) continue;
        if (after_shutdown) { if (a.count != 1) violation("kv-async-lost", "the handler of an accepted asynchronous flush of db%d was invoked %d times until shutdown had returned", a.db, a.count); continue; }
        uint64_t t0 = now_ns(); while (!a.count && now_ns() - t0 < 120ull * 1000000000ull) sleep_ns(now_ns() - t0 < 1000000000 ? 5000000 : 200000000);
        if (!a.count) violation("kv-async-stuck", "the handler of an accepted asynchronous flush of db%d did not run within 120 seconds", a.db); }
}
void body() {
    Cfg& c = C(); int inc = sh->incarnation; H = &S().h; bool last = inc + 1 >= c.ninc;
    if (inc > 0) { NoPreempt np; if (!S().clean_end) { check_incarnation(inc - 1, true); SIM_PROBE("kv_after_crash"); } } S().clean_end = false;
    if (c.damage[inc]) { Rng r(c.dseed[inc]); int d = r.below(c.ndb); char dm[400] = ""; if (S().seen_inc[d] >= 0) { damage(r, dbpath(d), c.damage[inc], dm, sizeof dm); bool main = c.damage[inc] & (DM_MANI | DM_TMANI); if (dm[0]) { NoPreempt np; SIM_PROBE(c.damage[inc] & (DM_DMANI | DM_DBAK) ? "kv_damage_db" : main ? "kv_damage_main" : "kv_damage_bak"); if (main) for (int q = 0; q < c.ndb; ++q) if (c.group || q == d) S().crashed_since[q] = true; } if (verbose) if (NoPreempt vnp; true) dbg("damage: %s", dm); } }
    GlobalConfig g; g.globalLogPath = "/sim"; g.numFlusherThreads = c.flushers; g.numCompactorThreads = c.compactors; g.flusherSleepDuration_ms = c.fsleep; g.compactorSleepDuration_ms = c.csleep; g.flusherMinRecordsToTrigger = c.minrec; g.flusherMinLogFilesToTrigger = c.minlog; g.flusherAutoSync = c.autosync; g.numDedicatedFlusherForAsyncReqs = c.dedicated; g.numTableWriters = c.writers; g.logFileReclaimerSleep_sec = c.reclaim; g.memTableFlushBufferSize = c.mfbuf; 
    Status s = jungle::init(g); if (!s) violation("kv-init", "init failed with %d", (int)s.getValue());
    if (c.group) { SIM_PROBE("kv_group"); for (int t = 0;; ++t) { s = DBGroup::open(&grp, "/sim/grp", dbcfg(inc)); if (s) break; if (!faulty() || t > 4) violation("kv-open", "opening the database group failed with %d", (int)s.getValue()); if (t >= 2) set_faults_enabled(false); } }
    for (int dd = 0; dd < c.ndb; ++dd) { int d = c.dseed[inc] & 1 ? c.ndb - 1 - dd : dd; bool fresh = S().seen_inc[d] < 0 && !S().any_ok[d];
        for (int t = 0;; ++t) { s = open_db(d, &mainh[d]); if (s) break; if (!faulty()) violation("kv-open", "opening db%d %s failed with %d", d, fresh ? "for the first time" : S().crashed_since[d] ? "after a crash" : "after a clean close", (int)s.getValue()); if (t >= 2) set_faults_enabled(false); if (t > 4) violation("kv-open", "opening db%d still fails with %d after the faults stopped", d, (int)s.getValue()); }
        recover(d); }
    if (!c.mainholds) for (int d = 0; d < c.ndb; ++d) { s = close_db(d, mainh[d]); mainh[d] = nullptr; if (!s && unexpected(s)) bad_status("DB::close", s, d); }
    set_faults_enabled(true);
    std::vector<std::thread> th; for (int i = 0; i < c.ncl[inc]; ++i) th.emplace_back(client, i);
    for (auto& t : th) t.join();
    if (c.faultmode) set_faults_enabled(false);
    if (!c.mainholds) for (int d = 0; d < c.ndb; ++d) { s = open_db(d, &mainh[d]); if (!s) violation("kv-open", "opening db%d after all clients closed it failed with %d", d, (int)s.getValue()); }
    if (!c.shutdown_busy) wait_async(false);
    if (c.faultmode) { for (int d = 0; d < c.ndb; ++d) { uint64_t inv = stamp(); s = mainh[d]->sync(true); if (!s) violation("kv-sync-after-faults", "sync of db%d still fails with %d after the faults stopped", d, (int)s.getValue()); add_sync(d, true, inv, 0); } }
    { Client cl; cl.id = 20; cl.inc = inc; for (int d = 0; d < c.ndb; ++d) cl.db[d] = mainh[d];
      for (int d = 0; d < c.ndb; ++d) { for (int k = 0; k < c.nkey; ++k) rd_get(cl, d, k, k & 1, false); Item it = { ITER, (uint8_t)d, 0, 1, 2 }; int fm = c.faultmode; do_iter(cl, it, mainh[d], d, nullptr); (void)fm; } }
    { NoPreempt np; check_incarnation(inc, false); }
    if (!last && c.endmode[inc] == 0) crash_now("end of incarnation");
    if (!last && c.endmode[inc] == 2) { /* crash somewhere in the close */ static std::thread* t = new std::thread([]() { Rng r(rseed(777 + sh->incarnation)); sleep_ns(r.below(r.onein(2) ? 2000000 : 300000000)); request_crash(); for (;;) sleep_ns(1000000); }); (void)t; }
    for (int d = 0; d < c.ndb; ++d) { s = close_db(d, mainh[d]); if (!s) { if (unexpected(s)) bad_status("DB::close", s, d); } }
    if (c.group) { s = DBGroup::close(grp); if (!s && unexpected(s)) bad_status("DBGroup::close", s, 0); grp = nullptr; }
    s = jungle::shutdown(); if (!s) violation("kv-shutdown", "shutdown failed with %d", (int)s.getValue());
    if (!last && c.endmode[inc] == 2) crash_now("after the close");
    wait_async(true);
    { NoPreempt np; for (int d = 0; d < c.ndb; ++d) S().crashed_since[d] = false; S().clean_end = true; if (!last) ctl->more = true; }
}
} // namespace
sim::World world_kv = { "kv", sizeof(Sh), configure, plan, body, MAXINC };
