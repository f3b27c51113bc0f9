// The log-store world: one database in log-section mode (records by sequence number) under appends, syncs, purges, rollbacks,
// readers, iterators, snapshots, memtable eviction and reload, restarts, crashes and damaged files.  Decides C10, C19 and part of C12.
#include "../run.h"
#include "../damage.h"
#include <libjungle/jungle.h>
#include <libjungle/iterator.h>
#include <algorithm>
#include <string>
#include <thread>
#include <vector>
#include <string.h>
extern char** environ;
using namespace sim; using namespace jungle;
namespace {
enum { LINC = 4, MAXT = 6, MAXOPS = 90, MAXW = 2400, MAXSEQ = 4000, MAXEV = 500, MAXK = 12 };
const uint64_t INF = ~0ull;
enum Op : uint8_t { APPEND, APPENDSN, OVERWRITE, DELE, BATCH, ROLLBACK, SYNC, SYNCF, SYNCNW, PURGE, ASYNC, GETSN, GETREC, GETKEY, SITER, KITER, SEQS, SLEEP, SNAPO, SNAPR, SNAPC, CLONE, NOPS };
const char* opn[] = { "append", "append with number", "overwrite", "delete", "batch", "rollback", "sync", "sync(fsync)", "syncNoWait", "purge", "async flush", "getSN", "getRecord", "get", "sequence iterator", "key iterator", "numbers", "sleep", "open snapshot", "read snapshot", "close snapshot", "clone manifest" };
enum { PENDING = 0, ACKED, MAYBE, FAILED };
struct Item { uint8_t op, key; uint32_t a, b; };
struct Cfg {
    int ninc, napp, nread, nkey, vmax; bool overwrite, gaps, concrb; int nops[LINC][MAXT]; bool trunc; Item prog[LINC][MAXT][MAXOPS]; Item tail[LINC][MAXOPS]; int ntail[LINC];
    int crashkind[LINC], endmode[LINC], crashmode; uint8_t damage[LINC]; uint64_t dseed[LINC];
    int maxent[LINC], maxlog[LINC], ttl[LINC], keep[LINC], direct[LINC], serial[LINC], skipm[LINC]; int flushers, fsleep, autosync, mfbuf, reclaim, dbuf; bool shutdown_first;
};
struct W { uint32_t seq; uint8_t key, type, fate, inc, thr; uint64_t inv, ret; uint64_t die_inv, die_ret; uint32_t order; };   // die_*: interval in which a rollback or an overwrite removed it
struct Purge { uint64_t p, inv, ret; bool ok; };
struct Rb { uint64_t r, inv, ret; bool ok; };
struct Syn { uint64_t inv, ret, hi; bool fsync; };
struct Sh { Cfg c; W w[MAXW]; int nw; Purge pg[MAXEV]; int npg; Rb rb[MAXEV]; int nrb; Syn sy[MAXEV]; int nsy; uint64_t purged_ok; bool crashed, ever, clean, closed, rbopen; uint64_t crash_stamp; uint64_t last_max; bool cloned; uint64_t clone_max, clone_pg; int clone_rb; bool ended; uint32_t norder; int lastrec; char dmg[300]; bool damaged, mani_ok; uint8_t intact[MAXW], flagdmg[MAXW]; uint32_t base_n; };
Sh& S() { return *(Sh*)wsh; }
Cfg& C() { return S().c; }
void configure() {
    Rng r(rseed(1)); Cfg& c = C(); bool dmg = prop_is("C19"), mani = prop_is("C12");
    c.ninc = dmg ? r.range(2, 3) : r.range(1, LINC); c.overwrite = r.onein(4); c.gaps = !c.overwrite && r.onein(6); c.napp = c.overwrite || c.gaps ? 1 : r.onein(2) ? 1 : r.range(2, 3); c.nread = r.range(0, 2); c.nkey = r.range(1, MAXK); static const int vm[] = { 0, 10, 80, 400 }; c.vmax = r.pick(vm);
    c.trunc = !r.onein(6); c.concrb = r.onein(2); static const int me[] = { 2, 3, 5, 10, 30, 200 }; static const int ml[] = { 300, 1000, 100000 }; static const int db[] = { 512, 1024, 4096 }; c.dbuf = r.pick(db);
    bool single = r.onein(3); if (single) { c.napp = 1; c.nread = 0; }
    for (int k = 0; k < LINC; ++k) { if (k && !r.onein(3)) { c.maxent[k] = c.maxent[0]; c.maxlog[k] = c.maxlog[0]; c.ttl[k] = c.ttl[0]; c.keep[k] = c.keep[0]; c.direct[k] = c.direct[0]; c.serial[k] = c.serial[0]; c.skipm[k] = c.skipm[0]; continue; }
        c.maxent[k] = r.pick(me); c.maxlog[k] = r.onein(2) ? 1 << 20 : r.pick(ml); c.ttl[k] = r.onein(4) ? 0 : r.range(1, 3); c.keep[k] = r.onein(2) ? 0 : r.range(1, 4); c.direct[k] = r.onein(5); c.serial[k] = !r.onein(3); c.skipm[k] = r.onein(6); }
    c.flushers = r.onein(3) ? 0 : r.range(1, 2); static const int fs[] = { 1, 10, 100, 500 }; c.fsleep = r.pick(fs); c.autosync = r.onein(3); static const int mf[] = { 64, 200, 1000, 32768 }; c.mfbuf = r.pick(mf); c.reclaim = r.range(1, 2); c.shutdown_first = r.onein(4);
    bool any = false; double pc = dmg ? 0.25 : 0.45;
    for (int k = 0; k < c.ninc; ++k) { bool last = k + 1 == c.ninc; c.crashkind[k] = !last && r.chance(pc) ? r.range(1, 2) : 0; c.endmode[k] = last ? 1 : r.chance(pc) ? (r.onein(3) ? 2 : 0) : 1; any |= c.crashkind[k] || c.endmode[k] != 1;
        c.damage[k] = k && dmg && k + 1 == c.ninc ? (r.onein(3) ? DM_MANI | DM_BAK : DM_LOG | (r.onein(4) ? DM_MANI : 0)) : 0; c.dseed[k] = r.next(); }
    if (mani && c.ninc > 1 && !r.onein(4)) { int k = r.range(1, c.ninc - 1); c.damage[k] = r.onein(2) ? DM_MANI : DM_BAK; c.crashkind[k - 1] = 0; c.endmode[k - 1] = 1; if (c.damage[k] == DM_BAK) for (int i = k; i < c.ninc; ++i) c.crashkind[i] = 0, c.endmode[i] = 1; }   // one copy only, and no crash while it is the only good one
    c.crashmode = !any ? 0 : r.onein(2) ? 1 : 2;
    const char* e = "o"; for (char** q = environ; *q; ++q) if (!strncmp(*q, "LSX=", 4)) e = *q + 4;   // envelope; the variable is for triage only
    if (strchr(e, '1')) { c.napp = 1; c.nread = 0; } if (strchr(e, 'c')) { c.crashmode = 0; for (int k = 0; k < c.ninc; ++k) { c.crashkind[k] = 0; c.endmode[k] = 1; } } if (strchr(e, 'b')) c.flushers = 0; if (strchr(e, 'i')) { c.ninc = 1; c.endmode[0] = 1; c.crashkind[0] = 0; c.crashmode = 0; } if (strchr(e, 'o')) c.overwrite = c.gaps = false; if (strchr(e, 'k')) c.crashmode = c.crashmode ? 1 : 0;
    if (c.crashmode == 2) c.autosync = 0;
    for (int k = 0; k < c.ninc; ++k) {
        int nt = c.napp + c.nread + 1; bool rbok = !c.overwrite && !strchr(e, 'r') && !r.onein(4);
        for (int t = 0; t <= nt; ++t) { int role = t == nt ? 3 : t < c.napp ? 0 : t < c.napp + c.nread ? 1 : 2; int w[NOPS] = { 0 }; auto X = [&](Op o, int v) { w[o] = r.onein(6) ? (r.onein(2) ? 0 : v * 3) : v; };
            if (role == 0 || role == 3) { w[c.gaps ? APPENDSN : APPEND] = 24; X(DELE, 3); if (!c.gaps && !c.overwrite) X(BATCH, 2); if (c.overwrite) { w[APPEND] = w[DELE] = 0; w[APPENDSN] = 20; X(OVERWRITE, 10); } X(SLEEP, 2); X(SYNC, 1); X(GETSN, 2); if (rbok && c.napp == 1 && (c.concrb || nt == 2)) w[ROLLBACK] = 2; if (role == 3 && rbok) w[ROLLBACK] = 4; }
            bool kq = !c.overwrite; if (role == 1) { X(GETSN, 12); X(GETREC, 8); if (kq) X(GETKEY, 4); X(SITER, 6); if (kq) X(KITER, 3); X(SEQS, 3); X(SLEEP, 5); X(SNAPO, 1); X(SNAPR, 2); X(SNAPC, 1); w[GETREC] += 2; }
            if (role == 2 || role == 3) { X(SYNC, 4); X(SYNCF, 4); X(SYNCNW, 1); X(PURGE, 3); X(ASYNC, c.flushers ? 2 : 0); X(SLEEP, 8); X(SEQS, 2); X(GETREC, 3); X(SITER, 2); if (kq) { X(KITER, 1); X(GETKEY, 2); } w[SLEEP] += 1; if (c.crashmode == 0 && !c.overwrite) X(CLONE, 1); }
            int tot = 0; for (int i = 0; i < NOPS; ++i) tot += w[i]; int n = role == 3 ? (r.onein(2) ? 0 : r.range(2, 30)) : std::min<int>(MAXOPS, r.range(4, role == 0 ? 90 / c.napp : 30)); if (single && role == 2) n = 0; if (single && role == 0) { for (int o : { (int)SYNC, (int)SYNCF, (int)PURGE, (int)SLEEP, (int)SEQS, (int)GETREC, (int)SITER, (int)(kq ? KITER : SITER), (int)(kq ? GETKEY : GETREC), (int)SNAPO, (int)SNAPR, (int)SNAPC }) if (!w[o]) w[o] = o == SYNC || o == SYNCF ? 3 : 2; tot = 0; for (int i = 0; i < NOPS; ++i) tot += w[i]; }
            for (int i = 0; i < n; ++i) { Item& it = role == 3 ? c.tail[k][i] : c.prog[k][t][i]; int v = r.below(tot), o = 0; while (v >= w[o]) v -= w[o++]; it.op = o; it.key = r.below(c.nkey); it.a = r.next(); it.b = r.next();
                if (c.crashmode == 2) { if (it.op == SYNC) it.op = SYNCF; if (it.op == SYNCNW) it.a |= 1; if (it.op == ASYNC) it.a |= 2; } }
            if (role == 3) c.ntail[k] = n; else c.nops[k][t] = n; } }
    snprintf(ctl->desc, sizeof ctl->desc, "log store: %d incarnation(s), %d appender(s), %d reader(s), %d keys, values to %d bytes%s%s, %d entries per log file, memtable life %d s, keep %d, flushers %d, direct I/O %d, crash mode %d, damage %d, first ops %s,%s,%s,%s", c.ninc, c.napp, c.nread, c.nkey, c.vmax, c.overwrite ? ", overwriting numbers" : "", c.gaps ? ", gaps in numbers" : "", c.maxent[0], c.ttl[0], c.keep[0], c.flushers, c.direct[0], c.crashmode, c.damage[c.ninc - 1], opn[c.prog[0][0][0].op], opn[c.prog[0][0][1].op], opn[c.prog[0][0][2].op], opn[c.prog[0][0][3].op]);
}
void plan(int inc) {
    Cfg& c = C(); Rng r(rseed(50 + inc)); default_sched(r, sh->sc); sh->sc.max_ns = 7200ull * 1000000000ull; sh->sc.max_sync = 40000000;
    sh->fc.lat_base_ns = 2000; sh->fc.lat_spread_ns = r.onein(3) ? 2000000 : 20000; if (r.onein(5)) sh->fc.p_slow = 0.02, sh->fc.slow_ns = 200000000;
    sh->fc.torn_mode = c.crashmode == 1 ? 1 : r.below(5); sh->fc.meta_prefix = r.onein(2);
    if (c.crashkind[inc] == 1) { double e = r.range(0, 100) / 10.0; uint64_t x = 1; for (; e >= 1; e -= 1) x *= 2; x += r.below(x); sh->fc.crash_io = x; sh->fc.crash_after = r.onein(2); }
    if (c.crashkind[inc] == 2) { uint64_t x = 1ull << r.range(4, 15); sh->fc.crash_step = x + r.below(x); }
}
// ---------------------------------------------------------------- helpers
DB* db; std::string P() { return "/sim/ls"; }
const char* nm(uint32_t id, char* b, size_t n) { if (!id) { snprintf(b, n, "nothing"); return b; } W& w = S().w[id - 1]; snprintf(b, n, "write #%u (%s key%d, seq %u, thread %d, incarnation %d, fate %d%s)", id, w.type ? "deletion of" : "value of", w.key, w.seq, w.thr, w.inc, w.fate, w.die_inv != INF ? ", removed" : ""); return b; }
std::string kstr(int k) { char b[16]; snprintf(b, sizeof b, "key%02d", k); return b; }
std::string enc(uint32_t id, bool meta) { std::string s; uint32_t chk = (uint32_t)mix64(id ^ (meta ? 0x7700000000ull : 0)); s.append((char*)&id, 4); s.append((char*)&chk, 4); uint32_t n = meta || !C().vmax ? 0 : mix64(id * 977ull) % (C().vmax + 1); for (uint32_t i = 0; i < n; ++i) s += (char)mix64(id * 31ull + i); return s; }
// the record is exactly what some append wrote: returns its id
uint32_t ident(const Record& r, const char* how, bool hasmeta, bool noval = false) {
    const SizedBuf& t = hasmeta ? r.meta : r.kv.value; uint32_t id = 0;
    if (t.size < 8) violation("ls-invented", "%s returned a record (seq %lld) that nobody wrote", how, (long long)r.seqNum); memcpy(&id, t.data, 4);
    if (!id || (int)id > S().nw) violation("ls-invented", "%s returned a record (seq %lld) with unknown tag %u", how, (long long)r.seqNum, id);
    W& w = S().w[id - 1]; char b[200]; std::string k = kstr(w.key), v = w.type ? "" : enc(id, false), m = enc(id, true);
    if (k.size() != r.kv.key.size || memcmp(k.data(), r.kv.key.data, k.size())) violation("ls-mixed", "%s returned another key for %s", how, nm(id, b, sizeof b));
    if (noval) { } else if (v.size() != r.kv.value.size || (v.size() && memcmp(v.data(), r.kv.value.data, v.size()))) violation("ls-torn", "%s returned a damaged value for %s", how, nm(id, b, sizeof b));
    if (hasmeta && (m.size() != r.meta.size || memcmp(m.data(), r.meta.data, m.size()))) violation("ls-torn", "%s returned damaged metadata for %s", how, nm(id, b, sizeof b));
    if (hasmeta && r.type != (w.type ? Record::DELETION : Record::INSERTION)) violation(S().flagdmg[id - 1] ? "ls-flag-damage" : "ls-type", "%s returned type %d for %s", how, (int)r.type, nm(id, b, sizeof b));
    return id;
}
bool dead_before(const W& w, uint64_t t) { return w.die_ret != INF && w.die_ret < t; }
// writing number `seq` again replaces what had that number
void learn(uint32_t id, uint64_t seq, const char* how) {
    W& w = S().w[id - 1]; char b1[200], b2[200]; if (w.seq == seq) return; if (w.seq) violation("ls-seq", "%s shows number %llu for %s", how, (unsigned long long)seq, nm(id, b1, sizeof b1));
    for (int i = 0; i < S().nw; ++i) { W& o = S().w[i]; if (o.seq == seq && o.die_inv == INF && i + 1 != (int)id && o.fate != FAILED) { if (o.fate == MAYBE || (C().damage[sh->incarnation] && o.inc < sh->incarnation)) { o.die_inv = o.die_ret = 0; continue; } violation("ls-seq-dup", "number %llu is held by %s and by %s", (unsigned long long)seq, nm(i + 1, b1, sizeof b1), nm(id, b2, sizeof b2)); } }
    w.seq = seq;
}
void seen(uint32_t id, uint64_t seq, uint64_t inv, const char* how) {   // a read that started at inv returned it under number seq
    W& w = S().w[id - 1]; char b[200]; if (w.fate == FAILED) violation("ls-failed-write", "%s returned %s, which had been rejected", how, nm(id, b, sizeof b));
    learn(id, seq, how); if (dead_before(w, inv)) violation("ls-resurrected", "%s returned %s although it had been rolled back or overwritten before", how, nm(id, b, sizeof b));
}
// is the record allowed to be missing for a read in [inv, ret]?
bool may_miss(const W& w, uint64_t inv, uint64_t ret) {
    if (w.fate != ACKED || w.ret > inv) return true; if (w.die_inv <= ret) return true; if (!w.seq) return true;
    for (int i = 0; i < S().npg; ++i) if (S().pg[i].inv < ret && w.seq <= S().pg[i].p) return true;
    for (int i = 0; i < S().nrb; ++i) { Rb& q = S().rb[i]; if (q.inv < ret && q.ret > inv && q.r < w.seq && q.ret > w.inv) return true; }
    return false;
}
void check_absent(uint64_t seq, uint64_t inv, const char* how, int status) {
    NoPreempt np; uint64_t ret = stamp(); char b[200];
    for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.seq == seq && !may_miss(w, inv, ret)) violation("ls-lost", "%s of number %llu returned %d although %s is stored", how, (unsigned long long)seq, status, nm(i + 1, b, sizeof b)); }
}
uint64_t maxseq(DB* d) { uint64_t v = 0; Status s = d->getMaxSeqNum(v); if (!s || v == (uint64_t)-1) v = 0; return v; }
uint32_t new_w(int thr, int key, int type) { NoPreempt np; if (S().nw >= MAXW) return 0; uint32_t id = ++S().nw; W& w = S().w[id - 1]; memset(&w, 0, sizeof w); w.key = key; w.type = type; w.inc = sh->incarnation; w.thr = thr; w.inv = stamp(); w.ret = INF; w.die_inv = w.die_ret = INF; w.order = ++S().norder; return id; }
struct Thr { int id; DB* snap; uint64_t snap_max, snap_inv, snap_open; int snap_rb, snap_pg; Rng r; Thr() : id(0), snap(nullptr), r(1) {} };
bool tailmode = false;   // per incarnation: only the main thread is left
bool solo() { return C().napp == 1 || tailmode; }
void fill(Record& r, uint32_t id, std::string& k, std::string& v, std::string& m) { W& w = S().w[id - 1]; k = kstr(w.key); v = enc(id, false); m = enc(id, true); r.kv.key = SizedBuf(k.size(), (void*)k.data()); if (!w.type) r.kv.value = SizedBuf(v.size(), (void*)v.data()); r.meta = SizedBuf(m.size(), (void*)m.data()); r.type = w.type ? Record::DELETION : Record::INSERTION; }
void fin_w(uint32_t id, Status s, const char* what, bool rbrace) { NoPreempt np; W& w = S().w[id - 1]; w.ret = stamp(); if (s) { w.fate = ACKED; return; } w.fate = FAILED; if (s == Status::ROLLBACK_IN_PROGRESS && rbrace) return; violation("ls-error", "%s failed with %d", what, (int)s.getValue()); }
void append(Thr& t, Item& it, int type, bool withsn, uint64_t over) {
    uint32_t id = new_w(t.id, it.key, type); if (!id) return; Record r; std::string k, v, m; fill(r, id, k, v, m); uint64_t sn = 0;
    if (over) { sn = over; NoPreempt np; for (int i = 0; i < S().nw; ++i) { W& o = S().w[i]; if (i + 1 != (int)id && o.seq == sn && o.die_inv == INF) o.die_inv = S().w[id - 1].inv; } }
    else if (withsn) { sn = maxseq(db) + 1 + (C().gaps && it.a % 3 == 0 ? it.b % 4 : 0); }
    if (withsn) { r.seqNum = sn; NoPreempt np; S().w[id - 1].seq = sn; }
    uint64_t before = solo() && !withsn ? maxseq(db) : 0;
    Status s; if (withsn) s = db->setRecord(r); else s = db->setRecordByKey(r);
    if (over) { NoPreempt np; for (int i = 0; i < S().nw; ++i) { W& o = S().w[i]; if (i + 1 != (int)id && o.seq == sn && o.die_inv != INF && o.die_ret == INF) o.die_ret = stamp(); } }
    fin_w(id, s, "append", false); if (solo() && !withsn) { NoPreempt np; learn(id, before + 1, "append"); }
}
void batch(Thr& t, Item& it) {
    std::list<Record> l; std::vector<uint32_t> ids; std::vector<std::string> sto(30); int n = 1 + it.b % 8; uint64_t before = solo() ? maxseq(db) : 0;
    for (int i = 0; i < n; ++i) { uint32_t id = new_w(t.id, (it.key + i * 3) % C().nkey, 0); if (!id) return; ids.push_back(id); Record r; fill(r, id, sto[i * 3], sto[i * 3 + 1], sto[i * 3 + 2]); l.push_back(r); }
    Status s = db->setRecordBatch(l); for (int i = 0; i < n; ++i) { fin_w(ids[i], s, "batch", false); if (solo()) { NoPreempt np; learn(ids[i], before + 1 + i, "batch"); } }
}
uint64_t pick_seq(Rng& r, Thr&) { uint64_t n = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); if (!s || mn == (uint64_t)-1 || !mn) mn = 1; if (r.onein(8)) return n + 1 + r.below(3); if (r.onein(8)) return 1 + r.below(mn); if (n < mn) return mn; return mn + r.below(n - mn + 1); }
void rd_sn(Thr& t, uint64_t seq, bool rec) {
    uint64_t inv = stamp(); if (!seq) return;
    if (rec) { Record r; Record::Holder h(r); Status s = db->getRecord(seq, r); if (!s) { check_absent(seq, inv, "getRecord", s.getValue()); return; } NoPreempt np; if (r.seqNum != seq) violation("ls-seq", "getRecord(%llu) returned number %llu", (unsigned long long)seq, (unsigned long long)r.seqNum); uint32_t id = ident(r, "getRecord", true); seen(id, seq, inv, "getRecord"); }
    else { KV kv; KV::Holder h(kv); Status s = db->getSN(seq, kv); if (!s) { // a deletion has no value
            NoPreempt np; for (int i = 0; i < S().nw; ++i) if (S().w[i].seq == seq && S().w[i].type) return; if (s != Status::KEY_NOT_FOUND && s != Status::LOG_FILE_NOT_FOUND && s != Status::LOG_NOT_EXIST && s != Status::NOT_KV_PAIR) {} check_absent(seq, inv, "getSN", s.getValue()); return; }
        NoPreempt np; if (!kv.value.size) return; Record r; r.seqNum = seq; r.kv = kv; uint32_t id = ident(r, "getSN", false); r.kv = KV(); seen(id, seq, inv, "getSN"); }
    SIM_PROBE("ls_read_ok"); (void)t;
}
void rd_key(Thr&, int k) {
    std::string ks = kstr(k); Record r; Record::Holder h(r); uint64_t inv = stamp(); Status s = db->getRecordByKey(SizedBuf(ks.size(), (void*)ks.data()), r, true); NoPreempt np; uint64_t ret = stamp(); char b1[200], b2[200];
    uint64_t got = 0; if (s) { uint32_t id = ident(r, "getRecordByKey", true, true); seen(id, r.seqNum, inv, "getRecordByKey"); got = r.seqNum; if (S().w[id - 1].key != k) violation("ls-mixed", "getRecordByKey(key%d) returned %s", k, nm(id, b1, sizeof b1)); 
        for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.key == k && w.seq > got && !may_miss(w, inv, ret)) violation("ls-stale", "getRecordByKey(key%d) returned %s although %s is stored", k, nm(id, b1, sizeof b1), nm(i + 1, b2, sizeof b2)); } }
    else for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.key == k && !may_miss(w, inv, ret)) violation("ls-lost", "getRecordByKey(key%d) returned %d although %s is stored", k, (int)s.getValue(), nm(i + 1, b1, sizeof b1)); }
}
void siter(DB* d, uint64_t mn, uint64_t mx, uint64_t cap, uint64_t since, const char* how, bool complete, bool full = false) {
    uint64_t inv = since ? since : stamp(); Iterator it; Status s = it.initSN(d, mn, mx); uint64_t opened = stamp(); std::vector<uint64_t> got; char b[200];
    if (s) { for (;;) { Record r; Record::Holder h(r); s = it.get(r); if (!s) break; { NoPreempt np; uint32_t id = ident(r, how, true); 
              if (got.size() && r.seqNum <= got.back()) violation("ls-order", "%s returned %llu after %llu", how, (unsigned long long)r.seqNum, (unsigned long long)got.back());
              if ((mn != INF && r.seqNum < mn) || (mx != INF && r.seqNum > mx)) violation("ls-range", "%s over %lld..%lld returned %llu", how, (long long)mn, (long long)mx, (unsigned long long)r.seqNum);
              seen(id, r.seqNum, inv, how); got.push_back(r.seqNum); } if (!it.next()) break; } it.close(); }
    NoPreempt np; uint64_t ret = stamp(); if (!complete) return; (void)opened;
    for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (!w.seq || (mn != INF && w.seq < mn) || (mx != INF && w.seq > mx) || w.seq > cap || may_miss(w, inv, ret)) continue; if (!std::binary_search(got.begin(), got.end(), (uint64_t)w.seq)) violation("ls-lost", "%s over %lld..%lld did not return %s (status of init %d, %zu returned, last %llu)", how, (long long)mn, (long long)mx, nm(i + 1, b, sizeof b), (int)s.getValue(), got.size(), got.size() ? (unsigned long long)got.back() : 0ull); }
    if (got.size()) SIM_PROBE("ls_siter_nonempty");
}
void kiter(DB* d, const char* how) {
    uint64_t inv = stamp(); Iterator it; Status s = it.init(d); int last = -1; bool have[MAXK] = { 0 }; uint64_t at[MAXK] = { 0 }; char b[200], b2[200];
    if (s) { do { Record r; Record::Holder h(r); s = it.get(r); if (!s) break; NoPreempt np; uint32_t id = ident(r, how, true); W& w = S().w[id - 1]; if (w.key <= last) violation("ls-order", "%s: key%d after key%d", how, w.key, last); last = w.key; seen(id, r.seqNum, inv, how); have[w.key] = true; at[w.key] = id; if (w.type) violation("ls-type", "%s returned %s", how, nm(id, b, sizeof b)); } while (it.next()); it.close(); }
    NoPreempt np; uint64_t ret = stamp();
    for (int k = 0; k < C().nkey; ++k) { // the newest stored version decides; anything concurrent is tolerated
        int best = -1; bool amb = false; for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.key != k || w.fate == FAILED) continue; if (!may_miss(w, inv, ret)) { if (best < 0 || w.seq > S().w[best].seq) best = i; } }
        if (best >= 0) for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.key == k && w.fate != FAILED && !dead_before(w, inv) && may_miss(w, inv, ret) && (!w.seq || w.seq > S().w[best].seq)) amb = true; }
        if (best < 0 || amb) continue; W& w = S().w[best];
        if (!w.type && !have[k]) violation("ls-lost", "%s did not return key%d although %s is stored", how, k, nm(best + 1, b, sizeof b)); if (have[k] && at[k] != (uint64_t)best + 1) violation("ls-stale", "%s returned %s for key%d although %s is stored", how, nm(at[k], b, sizeof b), k, nm(best + 1, b2, sizeof b2)); }
}
void numbers() {
    uint64_t inv = stamp(), mx = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); NoPreempt np; uint64_t ret = stamp(); char b[200]; (void)s; (void)mn;
    for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.seq > mx && w.fate == ACKED && w.ret < inv) { bool ok = w.die_inv <= ret; for (int j = 0; j < S().npg; ++j) if (S().pg[j].p >= w.seq) ok = true; for (int j = 0; j < S().nrb; ++j) { Rb& q = S().rb[j]; if (q.inv < ret && q.ret > w.inv && q.r < w.seq) ok = true; } if (!ok) violation("ls-max", "getMaxSeqNum returned %llu although %s is stored", (unsigned long long)mx, nm(i + 1, b, sizeof b)); } }
}
void add_sync(uint64_t inv, bool f) { NoPreempt np; if (S().nsy < MAXEV) { Syn& y = S().sy[S().nsy++]; y.inv = inv; y.ret = stamp(); y.fsync = f; } }
void purge(Thr& t, Item& it) {
    FlushOptions o; o.purgeOnly = it.a & 1; o.beyondLastSync = C().crashmode == 0 && it.a % 16 == 2; uint64_t q = INF, mx = maxseq(db); if (it.a % 5) { uint64_t mn = 0; Status s = db->getMinSeqNum(mn); if (!s || mn == INF || !mn) mn = 1; if (mx < mn) return; q = mn + it.b % (mx - mn + 1); if (it.a % 5 < 3 && q > mn) q = mn + (q - mn) / 3; }
    int i; { NoPreempt np; if (S().npg >= MAXEV) return; for (int j = 0; j < S().nrb; ++j) if (S().rb[j].ret == INF && S().rb[j].r < q) return;   // purging what is being rolled back: not specified
      i = S().npg++; Purge& p = S().pg[i]; p.p = q; p.inv = stamp(); p.ret = INF; p.ok = false; }
    Status s = db->flushLogs(o, q); uint64_t hi = maxseq(db); NoPreempt np; Purge& p = S().pg[i]; if (p.p > hi) p.p = hi; p.ret = stamp(); p.ok = s.ok(); if (s) { SIM_PROBE("ls_purge_ok"); if (q != INF && q > S().purged_ok) S().purged_ok = q; }
    else if (s != Status::OPERATION_IN_PROGRESS && s != Status::LOG_NOT_SYNCED && s != Status::ALREADY_FLUSHED && s != Status::INVALID_SEQNUM && !((int)s.getValue() == -56 && S().nrb)) violation("ls-error", "flushLogs(%lld) failed with %d", (long long)q, (int)s.getValue());
    (void)t;
}
extern int scans;
void rollback(Thr& t, Item& it) {
    uint64_t mx = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); if (!s || mn == INF || mx < mn || !mn) return; uint64_t R = mn + it.b % (mx - mn + 1); if (it.a % 3 == 0 && mx - R > 3) R = mx - (mx - R) / 4;
    { NoPreempt np; bool have = false; for (int i = 0; i < S().nw; ++i) if (S().w[i].seq == R && S().w[i].die_inv == INF && S().w[i].fate == ACKED) have = true; if (!have) return; for (int i = 0; i < S().npg; ++i) if (S().pg[i].p >= R) return; }
    int x; { NoPreempt np; if (S().nrb >= MAXEV || scans) return; x = S().nrb++; Rb& q = S().rb[x]; q.r = R; q.inv = stamp(); q.ret = INF; q.ok = false; }
    s = db->rollback(R);
    { NoPreempt np; Rb& q = S().rb[x]; q.ret = stamp(); q.ok = s.ok(); if (!s) { if (s == Status::TIMEOUT || s == Status::OPERATION_IN_PROGRESS) { SIM_PROBE("ls_rollback_timeout"); return; } for (int i = 0; i < S().npg; ++i) if (S().pg[i].p >= R) return; violation("ls-error", "rollback(%llu) failed with %d (numbers %llu..%llu)", (unsigned long long)R, (int)s.getValue(), (unsigned long long)mn, (unsigned long long)mx); }
      for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.seq > R && w.die_inv == INF) { w.die_inv = q.inv; w.die_ret = q.ret; } } SIM_PROBE("ls_rollback_ok"); if (R < mx) SIM_PROBE("ls_rollback_some"); }
    uint64_t now = maxseq(db); if (now != R) violation("ls-rollback", "after rollback(%llu) the maximum number is %llu", (unsigned long long)R, (unsigned long long)now);
    (void)t;
}
void snap_close(Thr& t) { if (!t.snap) return; Status s = DB::close(t.snap); t.snap = nullptr; if (!s) violation("ls-error", "closing a snapshot failed with %d", (int)s.getValue()); }
void snap_open(Thr& t) { snap_close(t); t.snap_inv = stamp(); t.snap_max = maxseq(db); Status s = db->openSnapshot(&t.snap); if (!s) violation("ls-error", "openSnapshot failed with %d", (int)s.getValue()); NoPreempt np; t.snap_open = stamp(); t.snap_rb = S().nrb; SIM_PROBE("ls_snapshot"); }
void snap_read(Thr& t, Item& it) {
    if (!t.snap) { snap_open(t); return; }
    { NoPreempt np; for (int i = 0; i < S().nrb; ++i) if (S().rb[i].ret > t.snap_inv) return; }   // what a rollback does to open snapshots is not specified
    if (it.a % 2) { uint64_t mn = INF, mx = INF; if (it.a % 4 == 1) { mn = 1 + it.b % (t.snap_max + 1); mx = mn + it.b / 7 % 20; }
        // records must be there even if purged after the snapshot was opened
        std::vector<uint64_t> got; Iterator itr; Status s = itr.initSN(t.snap, mn, mx); if (s) { for (;;) { Record r; Record::Holder h(r); s = itr.get(r); if (!s) break; { NoPreempt np; uint32_t id = ident(r, "iterator on a snapshot", true); seen(id, r.seqNum, t.snap_inv, "iterator on a snapshot"); if (got.size() && r.seqNum <= got.back()) violation("ls-order", "iterator on a snapshot returned %llu after %llu", (unsigned long long)r.seqNum, (unsigned long long)got.back()); got.push_back(r.seqNum); } if (!itr.next()) break; } itr.close(); }
        NoPreempt np; char b[200]; for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (!w.seq || (mn != INF && w.seq < mn) || (mx != INF && w.seq > mx) || C().overwrite || may_miss(w, t.snap_inv, t.snap_open)) continue; { bool rb = false; for (int j = 0; j < S().nrb; ++j) if (S().rb[j].ret > t.snap_inv) rb = true; if (rb) return; } if (!std::binary_search(got.begin(), got.end(), (uint64_t)w.seq)) violation("ls-snap-lost", "sequence iterator over %lld..%lld on a snapshot opened at %llu did not return %s (%zu returned)", (long long)mn, (long long)mx, (unsigned long long)t.snap_max, nm(i + 1, b, sizeof b), got.size()); }
        SIM_PROBE("ls_snapshot_read"); }
    else { std::string ks = kstr(it.key); Record r; Record::Holder h(r); Status s = t.snap->getRecordByKey(SizedBuf(ks.size(), (void*)ks.data()), r, true); NoPreempt np; if (C().overwrite) return; uint32_t id = 0; char b1[200], b2[200]; if (s) { id = ident(r, "get on a snapshot", true, true); seen(id, r.seqNum, t.snap_inv, "get on a snapshot"); }
        { for (int j = 0; j < S().nrb; ++j) if (S().rb[j].ret > t.snap_inv) return; }
        for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.key == it.key && w.seq && (!id || w.seq > S().w[id - 1].seq) && !may_miss(w, t.snap_inv, t.snap_open)) violation("ls-snap-lost", "get of key%d on a snapshot opened at %llu returned %s although %s was stored", it.key, (unsigned long long)t.snap_max, nm(id, b1, sizeof b1), nm(i + 1, b2, sizeof b2)); }
        if (id && S().w[id - 1].inv > t.snap_open) violation("ls-snap-future", "get of key%d on a snapshot opened at %llu returned the later %s", it.key, (unsigned long long)t.snap_max, nm(id, b1, sizeof b1)); }
}
void clone(Thr&) {
    if (!vfs_exists("/sim/clone")) vfs_mkdir("/sim/clone"); uint64_t inv = stamp(); Status s = db->sync(true); if (!s) return; DB* snap = nullptr; uint64_t mx = 0; { NoPreempt np; } mx = maxseq(db);
    s = db->cloneManifest("/sim/clone", &snap); if (!s) violation("ls-error", "cloneManifest failed with %d", (int)s.getValue()); if (snap) DB::close(snap); NoPreempt np; S().cloned = true; S().clone_max = mx; S().clone_pg = inv; SIM_PROBE("ls_cloned");
}
// iterators and snapshots do not overlap with rollbacks: what one shows across a rollback is not specified
int scans; bool scan_begin() { NoPreempt np; for (int j = 0; j < S().nrb; ++j) if (S().rb[j].ret == INF) return false; ++scans; return true; } void scan_end() { NoPreempt np; --scans; }
void run_op_(Thr& t, Item& it);
void run_op(Thr& t, Item& it) { bool sc = it.op == SITER || it.op == KITER || it.op == SNAPO || it.op == SNAPR || it.op == CLONE; if (sc && !scan_begin()) return; run_op_(t, it); if (sc) scan_end(); }
void run_op_(Thr& t, Item& it) {
    Rng r(it.b); 
    switch (it.op) {
    case APPEND: append(t, it, 0, false, 0); break; case APPENDSN: append(t, it, 0, true, 0); break; case DELE: append(t, it, 1, C().gaps || C().overwrite, 0); break; case BATCH: batch(t, it); break;
    case OVERWRITE: { uint64_t mx = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); { NoPreempt np; for (int i = 0; i < S().npg; ++i) if (S().pg[i].p >= mn && S().pg[i].p != INF) mn = S().pg[i].p + 1; for (int i = 0; i < S().npg; ++i) if (S().pg[i].ret == INF) s = Status::ERROR; } if (!s || mn == INF || mx <= mn) { append(t, it, 0, true, 0); break; } uint64_t q = mn + it.b % (mx - mn + 1); if (it.a % 3) q = mx - (mx - q) / 4; bool have = false; { NoPreempt np; for (int i = 0; i < S().nw; ++i) if (S().w[i].seq == q && S().w[i].die_inv == INF) have = true; } if (have) append(t, it, it.a % 7 == 0, true, q); break; }
    case ROLLBACK: rollback(t, it); break;
    case SYNC: case SYNCF: { uint64_t inv = stamp(); bool f = it.op == SYNCF; Status s = db->sync(f); if (s) add_sync(inv, f); else if (s != Status::OPERATION_IN_PROGRESS && s != Status::ROLLBACK_IN_PROGRESS) violation("ls-error", "sync failed with %d", (int)s.getValue()); break; }
    case SYNCNW: { uint64_t inv = stamp(); bool f = it.a & 1; Status s = db->syncNoWait(f); if (s) add_sync(inv, f); else if (s != Status::OPERATION_IN_PROGRESS && s != Status::ROLLBACK_IN_PROGRESS) violation("ls-error", "syncNoWait failed with %d", (int)s.getValue()); break; }
    case PURGE: if (C().napp == 1 && t.id != 0 && (C().concrb || C().overwrite)) break; purge(t, it); break;
    case ASYNC: { FlushOptions o; o.syncOnly = true; o.callFsync = it.a >> 1 & 1; uint64_t inv = stamp(); bool f = o.callFsync; int inc = sh->incarnation; Status s = db->flushLogsAsync(o, [inv, f, inc](Status st, void*) { if (st && inc == sh->incarnation) { add_sync(inv, f); SIM_PROBE("ls_async_ok"); } }, nullptr); (void)s; break; }
    case GETSN: rd_sn(t, pick_seq(r, t), false); break; case GETREC: rd_sn(t, pick_seq(r, t), true); break; case GETKEY: rd_key(t, it.key); break;
    case SITER: { uint64_t mn = INF, mx = INF; if (it.a % 3 == 0) mn = pick_seq(r, t); if (it.a % 4 == 0) mx = (mn == INF ? 1 : mn) + r.below(40); siter(db, mn, mx, INF, 0, "sequence iterator", true); break; }
    case KITER: kiter(db, "key iterator"); break; case SEQS: numbers(); break;
    case SLEEP: sleep_ns((it.a % 3 == 0 ? 1500000000ull : it.a % 3 == 1 ? 300000000ull : 2000000ull) * (1 + it.b % 3)); break;
    case SNAPO: snap_open(t); break; case SNAPR: snap_read(t, it); break; case SNAPC: snap_close(t); break; case CLONE: if (!C().skipm[sh->incarnation]) clone(t); break;   // with skipManifestSync the stored manifest is documented to lag
    }
}
void thread_main(int id) {
    Cfg& c = C(); int inc = sh->incarnation; char n[16]; snprintf(n, sizeof n, "t%d", id); set_name(n); Thr t; t.id = id; t.r = Rng(rseed(400 + id));
    for (int i = 0; i < c.nops[inc][id]; ++i) { if (!item_on(inc * 8 + id, i)) continue; if (verbose) if (NoPreempt vnp; true) dbg("%s key%d a=%u b=%u", opn[c.prog[inc][id][i].op], c.prog[inc][id][i].key, c.prog[inc][id][i].a, c.prog[inc][id][i].b); { NoPreempt np; ctl->work++; } run_op(t, c.prog[inc][id][i]); }
    if (t.snap && t.r.onein(2)) { Item it = { SNAPR, 0, 1, 1 }; snap_read(t, it); } snap_close(t);
}
// every record by number, twice (point reads and one scan); learns the numbers of unnumbered writes
void full_check(const char* when) {
    uint64_t mx = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); if (!s || mn == INF || !mn) mn = 1; Thr t; uint64_t from = mx > 1500 ? mx - 1500 : 1; if (from < mn && mn - from > 60) from = mn - 60;
    for (uint64_t q = from; q <= mx; ++q) rd_sn(t, q, true);
    { NoPreempt np; char b[200], b2[200]; uint64_t pg = 0; for (int i = 0; i < S().npg; ++i) pg = std::max(pg, S().pg[i].p);
      uint64_t unk = 0; for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.fate == ACKED && w.die_inv == INF && !w.seq) { if (!pg) violation("ls-lost", "%s: %s is under no number up to %llu", when, nm(i + 1, b, sizeof b), (unsigned long long)mx); ++unk; } }
      uint64_t have = 0; for (uint64_t q = 1; q <= std::min(pg, mx); ++q) { bool k = false; for (int i = 0; i < S().nw; ++i) if (S().w[i].seq == q && S().w[i].die_inv == INF) k = true; if (!k) ++have; } if (unk > have) violation("ls-lost", "%s: %llu acknowledged writes are under no number, and only %llu purged numbers could hold them", when, (unsigned long long)unk, (unsigned long long)have);
      for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.fate == ACKED && !w.seq) w.seq = 0; 
          if (w.seq && w.fate == ACKED && w.die_inv == INF && w.inc == sh->incarnation && !C().overwrite) for (int j = 0; j < S().nw; ++j) { W& o = S().w[j]; if (o.seq && o.inc == w.inc && o.fate == ACKED && o.die_inv == INF && o.ret < w.inv && o.seq >= w.seq) violation("ls-seq-order", "%s was acknowledged before %s started", nm(j + 1, b, sizeof b), nm(i + 1, b2, sizeof b2)); } } }
    siter(db, INF, INF, INF, 0, "full scan", true); if (mx > 4) siter(db, mx / 3 + 1, mx - 1, INF, 0, "range scan", true); numbers(); if (!C().overwrite) { for (int k = 0; k < C().nkey; ++k) rd_key(t, k); kiter(db, "key iterator"); }
}
// ---------------------------------------------------------------- recovery
bool counts(const Syn& y) { return C().crashmode == 1 || y.fsync; }
void recover() {
    bool crashed = S().crashed; uint64_t mx = maxseq(db), mn = 0; Status s = db->getMinSeqNum(mn); if (!s || mn == INF || !mn) mn = 1; char b[200], b2[200]; uint64_t lim = 0; { NoPreempt np; for (int i = 0; i < S().nw; ++i) lim = std::max<uint64_t>(lim, S().w[i].seq); for (int i = 0; i < S().nw; ++i) if (!S().w[i].seq && S().w[i].fate != FAILED) ++lim; }
    if (mx > lim + 4 && !S().damaged) violation("ls-max", "after reopening the maximum number is %llu, more than was ever written (%llu)", (unsigned long long)mx, (unsigned long long)lim);
    std::vector<uint32_t> at(std::min<uint64_t>(mx, MAXSEQ) + 8, 0); uint64_t inv = stamp();
    for (uint64_t q = 1; q <= mx + 3 && q < at.size() + 0; ++q) { Record r; Record::Holder h(r); s = db->getRecord(q, r); if (!s) continue; NoPreempt np; if (r.seqNum != q) violation("ls-seq", "getRecord(%llu) returned number %llu", (unsigned long long)q, (unsigned long long)r.seqNum); if (q > mx) violation("ls-max", "after reopening number %llu is readable beyond the maximum %llu", (unsigned long long)q, (unsigned long long)mx);
        uint32_t id = ident(r, "getRecord after open", true); W& w = S().w[id - 1]; if (w.fate == FAILED) violation("ls-failed-write", "after reopening: %s", nm(id, b, sizeof b)); if (w.seq && w.seq != q) violation("ls-seq", "after reopening number %llu holds %s", (unsigned long long)q, nm(id, b, sizeof b)); 
        if (w.die_ret != INF && !S().damaged) {   // removed: it may only come back when an overwrite of it was not durable
            bool excuse = false; if (crashed && C().overwrite) { excuse = true; for (int i = 0; i < S().nw; ++i) { W& o = S().w[i]; if (o.seq == q && o.order > w.order && o.fate == ACKED) for (int j = 0; j < S().nsy; ++j) if (counts(S().sy[j]) && o.ret < S().sy[j].inv) excuse = false; } }
            if (!excuse) violation("ls-resurrected", "after %s number %llu holds %s, which had been rolled back or overwritten", crashed ? "the crash" : "reopening", (unsigned long long)q, nm(id, b, sizeof b)); }
        at[q] = id; }
    uint64_t pgmax = 0; { NoPreempt np; for (int i = 0; i < S().npg; ++i) pgmax = std::max(pgmax, S().pg[i].p == INF ? mx : S().pg[i].p); }
    { Iterator it; s = it.initSN(db, INF, INF); uint64_t last = 0; if (s) { for (;;) { Record r; Record::Holder h(r); s = it.get(r); if (!s) break; { NoPreempt np; uint32_t id = ident(r, "scan after open", true); if (r.seqNum <= last) violation("ls-order", "scan after open returned %llu after %llu", (unsigned long long)r.seqNum, (unsigned long long)last); last = r.seqNum; if (last <= pgmax && last < at.size() && !at[last]) { if (!it.next()) break; continue; } /* already purged: point reads refuse it, a scan may still show it */ if (last > mx || last >= at.size() || (at[last] != id)) violation("ls-scan", "scan after open shows %s as number %llu, getRecord shows %s", nm(id, b, sizeof b), (unsigned long long)last, last < at.size() ? nm(at[last], b2, sizeof b2) : "nothing"); at[last] |= 0x80000000u; } if (!it.next()) break; } it.close(); }
      for (uint64_t q = 1; q < at.size(); ++q) if (at[q]) { if (!(at[q] & 0x80000000u) && q >= mn) violation("ls-scan", "scan after open does not show number %llu (%s)", (unsigned long long)q, nm(at[q], b, sizeof b)); at[q] &= 0x7fffffffu; } }
    NoPreempt np; uint64_t pg = 0; for (int i = 0; i < S().npg; ++i) pg = std::max(pg, S().pg[i].p == INF ? mx : S().pg[i].p);
    if (!S().damaged) {
        uint64_t rbmin = INF; for (int i = 0; i < S().nrb; ++i) if (S().rb[i].ret == INF) rbmin = std::min(rbmin, S().rb[i].r);
        // writes of unknown number that are now visible, then what must be there
        uint64_t N = mx;
        for (uint64_t q = 1; q < at.size(); ++q) if (at[q]) { W& w = S().w[at[q] - 1]; if (!w.seq) { for (int i = 0; i < S().nw; ++i) { W& o = S().w[i]; if (o.seq == q && o.die_inv == INF && !crashed) violation("ls-seq-dup", "number %llu is held by %s and by %s", (unsigned long long)q, nm(i + 1, b, sizeof b), nm(at[q], b2, sizeof b2)); if (o.seq == q && o.die_inv == INF) { o.die_inv = o.die_ret = stamp(); } } w.seq = q; } }
        for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.fate == FAILED || w.die_ret != INF) continue; bool present = w.seq && w.seq < at.size() && at[w.seq] == (uint32_t)i + 1; if (present) continue;
            bool must = w.fate == ACKED && w.seq && w.seq > pg; if (must && w.die_inv != INF) must = false; if (must && w.seq > rbmin) must = false;
            if (must && crashed && w.inc >= S().lastrec) { must = false; for (int j = 0; j < S().nsy; ++j) if (counts(S().sy[j]) && w.ret < S().sy[j].inv) must = true; }
            if (must && crashed && C().overwrite) for (int j = 0; j < S().nw; ++j) if (S().w[j].seq == w.seq && S().w[j].order > w.order && S().w[j].fate != FAILED && at[w.seq] == (uint32_t)j + 1) must = false;
            if (must) violation(crashed ? "ls-lost-synced" : "ls-lost", "after %s %s is missing (numbers %llu..%llu)", crashed ? "the crash" : "reopening", nm(i + 1, b, sizeof b), (unsigned long long)mn, (unsigned long long)mx);
            if (w.seq && w.seq <= N && w.seq > pg && w.seq < rbmin && !C().gaps && !C().overwrite) violation("ls-hole", "after %s number %u is missing although the maximum is %llu", crashed ? "the crash" : "reopening", w.seq, (unsigned long long)N); }
        if (!C().gaps) for (uint64_t q = pg + 1; q < at.size() && q <= N; ++q) if (!at[q]) violation("ls-hole", "after %s number %llu is missing although the maximum is %llu (minimum %llu, purged %llu)", crashed ? "the crash" : "reopening", (unsigned long long)q, (unsigned long long)N, (unsigned long long)mn, (unsigned long long)pg);
        if (!crashed && S().clean && mx != S().last_max) violation("ls-max", "after reopening the maximum number is %llu, it was %llu", (unsigned long long)mx, (unsigned long long)S().last_max);
    } else {
        for (uint64_t q = 1; q < at.size(); ++q) if (at[q]) { W& w = S().w[at[q] - 1]; if (!w.seq) w.seq = q; }
        for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; bool present = w.seq && w.seq < at.size() && at[w.seq] == (uint32_t)i + 1; if (!present && w.fate == ACKED && w.die_inv == INF && w.seq && S().intact[i] && w.seq > pg && !crashed) violation("ls-damage-lost", "%s is missing after damage that starts behind it: %s", nm(i + 1, b, sizeof b), S().dmg); }
        SIM_PROBE("ls_damage_checked"); }
    // from now on exactly the visible records exist
    for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; bool present = w.seq && w.seq < at.size() && at[w.seq] == (uint32_t)i + 1; if (present) { w.fate = ACKED; w.ret = std::min(w.ret, inv - 1); w.die_inv = w.die_ret = INF; } else if (w.fate != FAILED) { if (!((w.seq ? w.seq <= pg && w.seq <= mx : pg > 0) && w.die_inv == INF)) { if (w.die_inv == INF) w.die_inv = 0; if ((w.die_ret == INF && (w.seq || !pg)) || w.fate != ACKED) w.die_ret = inv - 1; }   /* a write of unknown number may have been purged rather than lost: scans may still show it */ else if (!w.seq && (crashed || S().damaged)) w.die_inv = 0;   // lost in the crash, or purged before it
  w.fate = ACKED; w.ret = std::min(w.ret, inv - 1); } }
    for (int i = 0; i < S().npg; ++i) { if (S().pg[i].p == INF) S().pg[i].p = mx; if (S().pg[i].p > mx) S().pg[i].p = mx; if (S().pg[i].ret == INF) S().pg[i].ret = inv; } if (S().purged_ok > mx) S().purged_ok = mx;
    for (int i = 0; i < S().nrb; ++i) if (S().rb[i].ret == INF) S().rb[i].ret = inv; S().nsy = 0; S().lastrec = sh->incarnation; if (mx) SIM_PROBE("ls_recovered_nonempty"); if (crashed) SIM_PROBE("ls_recovered_crash");
}
// which records had the (not checksummed) type byte in front of them damaged
struct FlagAt { int w; std::string file; size_t at; char b[8]; }; std::vector<FlagAt> flagat;
void find_flags(bool after) {
    if (after) { memset(S().flagdmg, 0, sizeof S().flagdmg); for (auto& f : flagat) { std::string d = dm_read(f.file); if (f.at + 8 <= d.size() && memcmp(d.data() + f.at, f.b, 8)) S().flagdmg[f.w] = 1; } flagat.clear(); return; }
    for (auto& x : dm_list(P())) { if (!dm_match(x, DM_LOG)) continue; std::string full = x[0] == '/' ? x : P() + "/" + x; std::string d = dm_read(full);
        for (int i = 0; i < S().nw; ++i) { std::string t = enc(i + 1, true).substr(0, 8); for (size_t at = d.find(t); at != std::string::npos; at = d.find(t, at + 1)) if (at >= 41) { FlagAt f; f.w = i; f.file = full; f.at = at - 41; memcpy(f.b, d.data() + f.at, 8); flagat.push_back(f); } } }
}
// after damage: which records lie wholly before it (found by their unique tags in the log files)
void find_intact(const std::vector<DmgAt>& wh, bool mani_ok) {
    memset(S().intact, 0, sizeof S().intact); S().mani_ok = mani_ok; if (!mani_ok) return; std::string first = "~"; for (auto& d : wh) if (dm_match(d.file, DM_LOG)) first = std::min(first, d.file);
    std::vector<std::string> all = dm_list(P()); for (auto& x : all) { if (!dm_match(x, DM_LOG)) continue; std::string full = x[0] == '/' ? x : P() + "/" + x; if (full >= first) continue; std::string d = dm_read(full); size_t lim = d.size(); for (auto& y : wh) if (y.file == full) lim = std::min(lim, y.at);
        std::vector<std::pair<size_t, int>> tags; for (int i = 0; i < S().nw; ++i) { std::string t = enc(i + 1, true).substr(0, 8); size_t at = d.rfind(t, lim); if (at != std::string::npos && at + 8 <= lim) tags.push_back({ at, i }); }
        std::sort(tags.begin(), tags.end()); for (size_t k = 0; k < tags.size(); ++k) S().intact[tags[k].second] = 1; }
}
DBConfig dbcfg(int k) { Cfg& c = C(); DBConfig d; d.logSectionOnly = true; d.lookupBoosterLimit_mb.clear(); d.lookupBoosterLimit_mb.push_back(0); d.lookupBoosterLimit_mb.push_back(0); d.maxEntriesInLogFile = c.maxent[k]; d.maxLogFileSize = c.maxlog[k]; d.logFileTtl_sec = c.ttl[k]; d.maxKeepingMemtables = c.keep[k]; d.allowOverwriteSeqNum = c.overwrite; d.truncateInconsecutiveLogs = c.gaps || c.overwrite ? false : c.trunc; d.serializeMultiThreadedLogFlush = c.serial[k]; d.skipManifestSync = c.skipm[k]; if (c.direct[k]) { d.directIoOpt.enabled = true; d.directIoOpt.bufferSize = c.dbuf; d.directIoOpt.alignSize = 512; } return d; }
void body() {
    Cfg& c = C(); int inc = sh->incarnation; bool last = inc + 1 == c.ninc; S().crashed = inc > 0 && !S().clean; 
    if (c.damage[inc] && S().ever) { Rng r(c.dseed[inc]); S().damaged = prop_is("C19"); std::vector<DmgAt> wh; if (S().damaged) find_flags(false); damage(r, P(), c.damage[inc], S().dmg, sizeof S().dmg, &wh); if (S().damaged) find_flags(true), find_intact(wh, !(c.damage[inc] & DM_BAK)); if (verbose) if (NoPreempt vnp; true) dbg("damage: %s", S().dmg); }
    GlobalConfig g; g.globalLogPath = "/sim"; g.numFlusherThreads = c.flushers; g.numCompactorThreads = 0; g.flusherSleepDuration_ms = c.fsleep; g.flusherAutoSync = c.autosync; g.numTableWriters = 0; g.logFileReclaimerSleep_sec = c.reclaim; g.memTableFlushBufferSize = c.mfbuf;
    Status s = jungle::init(g); if (!s) violation("ls-init", "init failed with %d", (int)s.getValue());
    if (inc && S().cloned && S().clean && !c.damage[inc]) { S().cloned = false; bool ok = true; for (int i = 0; i < S().npg; ++i) if (S().pg[i].ret > S().clone_pg) ok = false; for (int i = 0; i < S().nrb; ++i) if (S().rb[i].ret > S().clone_pg) ok = false;
        if (ok) { DBConfig d = dbcfg(inc); d.readOnly = true; d.customManifestPath = "/sim/clone"; DB* ro = nullptr; s = DB::open(&ro, P(), d); if (!s) violation("ls-clone", "opening the cloned manifest read-only failed with %d", (int)s.getValue()); char b[200];
            for (int i = 0; i < S().nw; ++i) { W& w = S().w[i]; if (w.fate == ACKED && w.die_inv == INF && w.seq && w.ret < S().clone_pg) { bool pg = false; for (int j = 0; j < S().npg; ++j) if (S().pg[j].p >= w.seq) pg = true; if (pg) continue; Record r; Record::Holder h(r); s = ro->getRecord(w.seq, r); if (!s) violation("ls-clone", "the cloned manifest does not show %s (%d)", nm(i + 1, b, sizeof b), (int)s.getValue()); uint32_t id = ident(r, "getRecord through the cloned manifest", true); if ((int)id != i + 1) violation("ls-clone", "the cloned manifest shows another record for %s", nm(i + 1, b, sizeof b)); } }
            Record x; x.kv.key = SizedBuf("k"); s = ro->set(KV("kk", "vv")); if (s) violation("ls-readonly", "a write to a read-only database succeeded"); DB::close(ro); SIM_PROBE("ls_clone_checked"); } }
    { NoPreempt np; S().clean = false; }
    s = DB::open(&db, P(), dbcfg(inc)); if (!s) { if (S().damaged) { if (S().mani_ok && !S().crashed) violation("ls-damage-open", "only log files are damaged%s, but opening failed with %d", S().dmg, (int)s.getValue()); SIM_PROBE("ls_damage_rejected"); jungle::shutdown(); NoPreempt np; S().ended = true; return; } violation("ls-open", "opening the log store %s%s failed with %d", !S().ever ? "for the first time" : S().crashed ? "after a crash" : "after a clean close", S().dmg[0] ? S().dmg : "", (int)s.getValue()); }
    if (S().ever) recover(); else { if (maxseq(db)) violation("ls-invented", "a fresh log store is not empty"); } S().ever = true;
    { NoPreempt np; S().dmg[0] = 0; }
    if (S().damaged) S().damaged = false;
    std::vector<std::thread> th; for (int i = 0; i < c.napp + c.nread + 1; ++i) th.emplace_back(thread_main, i); for (auto& t : th) t.join();
    full_check("after all clients have stopped");
    if (c.ntail[inc]) { Thr t; t.id = 0; tailmode = true; for (int i = 0; i < c.ntail[inc]; ++i) { if (!item_on(40 + inc, i)) continue; Item& it = c.tail[inc][i]; if (verbose) if (NoPreempt vnp; true) dbg("tail %s key%d", opn[it.op], it.key); { NoPreempt np; ctl->work++; } run_op(t, it); } snap_close(t); tailmode = false; full_check("at the end"); }
    if (!last && c.endmode[inc] == 0) crash_now("end of incarnation");
    if (!last && c.endmode[inc] == 2) { static std::thread* t = new std::thread([]() { Rng r(rseed(777 + sh->incarnation)); sleep_ns(r.below(r.onein(2) ? 2000000 : 300000000)); request_crash(); for (;;) sleep_ns(1000000); }); (void)t; }
    { NoPreempt np; } uint64_t mx = maxseq(db);
    if (!c.shutdown_first) { s = DB::close(db); if (!s) violation("ls-close", "close failed with %d", (int)s.getValue()); }
    else { s = DB::close(db); if (!s) violation("ls-close", "close failed with %d", (int)s.getValue()); }
    s = jungle::shutdown(); if (!s) violation("ls-shutdown", "shutdown failed with %d", (int)s.getValue());
    if (!last && c.endmode[inc] == 2) crash_now("after the close");
    NoPreempt np; S().clean = true; S().last_max = mx; if (!last) ctl->more = true;
}
} // namespace
sim::World world_logstore = { "logstore", sizeof(Sh), configure, plan, body, LINC };
