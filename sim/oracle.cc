#include "oracle.h"
#include "lin.h"
#include <algorithm>
#include <string>
#include <vector>
#include <stdio.h>
#include <string.h>
using namespace sim;
namespace kvo {
Hist* H;
static Write& W(uint32_t op) { return H->w[op - 1]; }
static bool exact(const Write& w) { return w.hi == w.lo + 1 && !w.unsure; }
const char* opname(uint32_t op, char* b, size_t n) {
    if (!op) { snprintf(b, n, "absent"); return b; }
    Write& w = W(op); static const char* fn[] = { "pending", "acked", "maybe", "rejected" };
    if (exact(w)) snprintf(b, n, "op%u(%s db%d key%d client%d inc%d %s seq %llu%s%s)", op, w.base ? "base-absent" : w.type ? "del" : "set", w.db, w.key, w.client, w.inc, fn[w.fate], (unsigned long long)w.hi, w.bsize ? " batch" : "", w.lost ? " lost" : "");
    else snprintf(b, n, "op%u(%s db%d key%d client%d inc%d %s seq %llu..%llu%s%s)", op, w.base ? "base-absent" : w.type ? "del" : "set", w.db, w.key, w.client, w.inc, fn[w.fate], (unsigned long long)w.lo + 1, (unsigned long long)w.hi, w.bsize ? " batch" : "", w.lost ? " lost" : "");
    return b;
}
static void overflow(const char* what) { harness_error("history overflow: %s", what); }
uint32_t new_write(int db, int key, int type, int client, uint64_t lo) {
    if (H->nw >= MAXW) overflow("writes");
    Write& w = H->w[H->nw++]; memset(&w, 0, sizeof w);
    w.type = type; w.db = db; w.key = key; w.inc = sh->incarnation; w.client = client; w.fate = PENDING; w.lo = lo; w.hi = INF; w.b0 = -1; w.gid = -1; w.inv = stamp(); w.ret = INF; w.gone_at = INF;
    return H->nw;
}
void finish_write(uint32_t op, Fate f, uint64_t hi) {
    Write& w = W(op); w.fate = f; w.ret = stamp();
    if (f == REJECTED && w.seen) { char b[200]; violation("kv-rejected-visible", "a rejected write was visible: %s", opname(op, b, sizeof b)); }
    if (f == ACKED) {
        if (hi < w.hi) { if (exact(w)) { char b[200]; violation("kv-seqnum", "maximum sequence number %llu after the acknowledgement is below the write's own: %s", (unsigned long long)hi, opname(op, b, sizeof b)); } w.hi = hi; }
        if (w.hi <= w.lo) { char b[200]; violation("kv-seqnum", "sequence number did not grow over an acknowledged write: before %llu, after %llu, %s", (unsigned long long)w.lo, (unsigned long long)hi, opname(op, b, sizeof b)); }
    }
}
void link_batch(uint32_t first, int n, int gid) { for (int i = 0; i < n; ++i) { Write& w = W(first + i); w.b0 = first - 1; w.bpos = i; w.bsize = n; w.gid = gid; } }
uint32_t new_read(int db, int key, int client, int kind) {
    if (H->nr >= MAXR) overflow("reads");
    Read& r = H->r[H->nr++]; r.db = db; r.key = key; r.inc = sh->incarnation; r.client = client; r.kind = kind; r.res = 0; r.inv = stamp(); r.ret = 0; return H->nr - 1;
}
void finish_read(uint32_t i, uint32_t res) { H->r[i].res = res; H->r[i].ret = stamp(); if (res) W(res).seen = 1; }
void drop_read(uint32_t i) { H->r[i].ret = 0; }
int new_view(int db, int client, int kind) {
    if (H->nv >= MAXV) overflow("views");
    View& v = H->v[H->nv++]; memset(&v, 0, sizeof v); v.db = db; v.client = client; v.inc = sh->incarnation; v.kind = kind; v.inv = stamp(); v.e0 = -1; return H->nv - 1;
}
void view_ret(int v) { H->v[v].ret = stamp(); }
void view_add(int vi, int key, uint32_t op) {
    View& v = H->v[vi]; v.cover |= 1ull << key; if (!op) return;
    if (H->nve >= MAXVE) overflow("view entries");
    H->ve[H->nve].key = key; H->ve[H->nve].op = op;
    // entries of one view are a linked chunk list in the pool: e0 = first, consecutive only while nobody else appends
    if (v.e0 < 0) { v.e0 = H->nve; v.ne = 1; H->nve++; }
    else if (v.e0 + v.ne == H->nve) { v.ne++; H->nve++; }
    else { // move to the end
        if (H->nve + v.ne + 1 >= MAXVE) overflow("view entries");
        VEnt last = H->ve[H->nve]; memmove(&H->ve[H->nve], &H->ve[v.e0], v.ne * sizeof(VEnt)); v.e0 = H->nve; H->ve[v.e0 + v.ne] = last; v.ne++; H->nve += v.ne; }
    W(op).seen = 1;
}
void add_sync(int db, bool fsync, uint64_t inv, int kind) { if (H->nsy >= MAXSY) overflow("syncs"); SyncRec& s = H->sy[H->nsy++]; s.db = db; s.inc = sh->incarnation; s.fsync = fsync; s.kind = kind; s.inv = inv; s.ret = stamp(); }
static bool alive(const Write& w, int inc) { return w.fate != REJECTED && w.inc <= inc && (!w.lost || inc < w.lost); }
uint32_t by_seq(int db, uint64_t seq) {
    for (int i = H->nw - 1; i >= 0; --i) { Write& w = H->w[i]; if (w.db == db && !w.lost && !w.base && w.fate != REJECTED && exact(w) && w.hi == seq) return i + 1; }
    return 0;
}
void learn_seq(uint32_t op, uint64_t seq, const char* how) {
    Write& w = W(op); char b[200];
    if (w.fate == REJECTED) violation("kv-rejected-visible", "%s returned a rejected write: %s", how, opname(op, b, sizeof b));
    if (w.bsize && !w.custom) { // batch members are contiguous
        Write& f = W(w.b0 + 1);
        if (exact(f) && f.hi + w.bpos != seq) violation("kv-batch-seq", "%s reports sequence number %llu for record %d of a batch starting at %llu: %s", how, (unsigned long long)seq, w.bpos, (unsigned long long)f.hi, opname(op, b, sizeof b));
    }
    if (seq <= w.lo || seq > w.hi) violation("kv-seqnum", "%s reports sequence number %llu for %s", how, (unsigned long long)seq, opname(op, b, sizeof b));
    w.seen = 1;
    if (exact(w)) return;
    uint32_t o = by_seq(w.db, seq);
    if (o && o != op) { char b2[200]; violation("kv-seq-dup", "%s reports sequence number %llu for %s, which belongs to %s", how, (unsigned long long)seq, opname(op, b, sizeof b), opname(o, b2, sizeof b2)); }
    if (w.bsize && !w.custom) for (int i = 0; i < w.bsize; ++i) { Write& x = W(w.b0 + 1 + i); uint64_t s = seq - w.bpos + i;
        if (s <= x.lo || s > x.hi) violation("kv-batch-seq", "%s reports sequence number %llu for record %d of a batch whose record %d must lie in %llu..%llu", how, (unsigned long long)seq, w.bpos, i, (unsigned long long)x.lo + 1, (unsigned long long)x.hi);
        x.hi = s; x.lo = s - 1; x.unsure = 0; }
    else { w.hi = seq; w.lo = seq - 1; w.unsure = 0; }
}
uint32_t find_delete(int db, int key, uint64_t seq) {
    uint32_t c = 0; int n = 0; char b[200];
    for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i];
        if (w.db != db || w.key != key || !w.type || w.base || w.lost || w.fate == REJECTED) continue;
        if (exact(w) && w.hi == seq) return i + 1;
        if (!exact(w) && w.lo < seq && seq <= w.hi) { c = i + 1; n++; } }
    if (!n) violation("kv-invented", "a tombstone of db%d key%d with sequence number %llu was returned, but no delete can own it", db, key, (unsigned long long)seq);
    (void)b;
    if (n == 1) { learn_seq(c, seq, "tombstone"); return c; }
    return 0;
}
// a is definitely ordered before b
static bool before(const Write& a, const Write& b) {
    if (a.hi <= b.lo) return true;
    if (b.hi <= a.lo) return false;
    if (a.inc != b.inc) return a.inc < b.inc;
    if (a.bsize && a.b0 == b.b0) return a.bpos < b.bpos;
    if (a.fate == ACKED && a.ret < b.inv) return true;
    return false;
}
static bool possible_in(const Write& w, uint64_t m) { return w.lo < m && !(m >= w.gone_at); }
static bool definite_in(const Write& w, uint64_t m) { return (w.fate == ACKED || w.base || (w.seen && exact(w))) && w.hi <= m && !(w.gone_at != INF && !exact(w)); }
static std::vector<uint32_t> idx[MAXDB][MAXKEY]; static int idx_n = 0;
static void reindex() { if (idx_n > H->nw) { for (auto& a : idx) for (auto& b : a) b.clear(); idx_n = 0; }
    for (; idx_n < H->nw; ++idx_n) { Write& w = H->w[idx_n]; idx[w.db][w.key].push_back(idx_n + 1); } }
bool consistent(int inc, int db, int key, uint64_t m, uint32_t op) {
    reindex();
    auto& L = idx[db][key];
    if (op) {
        Write& w = W(op); if (w.db != db || w.key != key || w.type) return false;
        if (!alive(w, inc) || !possible_in(w, m)) return false;
        for (uint32_t o : L) { Write& x = W(o); if (o == op || !alive(x, inc)) continue; if (definite_in(x, m) && before(w, x)) return false; }
        return true;
    }
    for (uint32_t o : L) { Write& x = W(o); if (x.type || !alive(x, inc) || !definite_in(x, m)) continue;
        bool ok = x.gone_at <= m;   // shadowed before an earlier recovery
        for (uint32_t d : L) { if (ok) break; Write& y = W(d); if (!y.type || !alive(y, inc) || !possible_in(y, m) || before(y, x)) continue; ok = true; }
        if (!ok) return false; }
    return true;
}
// ------------------------------------------------------------------ linearizability per key
struct LD { uint8_t write; uint32_t v; };
static bool lin_apply(void* st, const void* op) { const LD* d = (const LD*)op; uint32_t& s = *(uint32_t*)st; if (d->write) { s = d->v; return true; } return s == d->v; }
static void check_lin(int inc) {
    uint64_t budget_hit = 0;
    for (int db = 0; db < H->ndb; ++db) for (int key = 0; key < H->nkey; ++key) {
        std::vector<LinOp> ops; std::vector<LD> ld; ld.reserve(4000); int pseudo = 1000; bool reads = false;
        for (int i = 0; i < H->nr; ++i) if (H->r[i].inc == inc && H->r[i].db == db && H->r[i].key == key && H->r[i].ret) reads = true;
        for (int i = 0; i < H->nv && !reads; ++i) if (H->v[i].inc == inc && H->v[i].db == db && H->v[i].ret && !H->v[i].mfix && (H->v[i].cover >> key & 1)) reads = true;
        if (!reads) continue;
        for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.inc != inc || w.db != db || w.key != key || w.base || w.fate == REJECTED) continue;
            // within a batch only the last record of a key shows
            if (w.bsize) { bool last = true; for (int j = w.bpos + 1; j < w.bsize; ++j) if (W(w.b0 + 1 + j).key == key && W(w.b0 + 1 + j).db == db) last = false; if (!last) continue; }
            bool un = w.fate != ACKED; ld.push_back({ 1, w.type ? 0u : (uint32_t)i + 1 });
            ops.push_back({ un ? pseudo++ : w.client, w.inv, un ? INF : w.ret, nullptr }); }
        for (int i = 0; i < H->nr; ++i) { Read& r = H->r[i]; if (r.inc != inc || r.db != db || r.key != key || !r.ret) continue; ld.push_back({ 0, r.res }); ops.push_back({ r.client, r.inv, r.ret, nullptr }); }
        for (int i = 0; i < H->nv; ++i) { View& v = H->v[i]; if (v.inc != inc || v.db != db || !v.ret || v.mfix || !(v.cover >> key & 1)) continue;
            uint32_t res = 0; for (int e = 0; e < v.ne; ++e) if (H->ve[v.e0 + e].key == key) res = H->ve[v.e0 + e].op;
            ld.push_back({ 0, res }); ops.push_back({ v.client, v.inv, v.ret, nullptr }); }
        if (ld.size() > 3900) overflow("lin");
        for (size_t i = 0; i < ops.size(); ++i) ops[i].d = &ld[i];
        uint32_t init = H->base[inc][db][key];
        int rc = linearize(ops.data(), ops.size(), 4, &init, lin_apply, 300000);
        if (rc < 0) { budget_hit++; SIM_PROBE("kv_lin_budget"); }
        if (rc == 0) { // describe
            std::string s; char b[260]; std::vector<int> o(ops.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int c) { return ops[a].inv < ops[c].inv; });
            char n1[200]; snprintf(b, sizeof b, "starts as %s;", opname(init, n1, sizeof n1)); s = b;
            uint64_t b0 = 0; for (int i : o) if (!b0) b0 = ops[i].inv;
            for (int i : o) { if (s.size() > 2300) break; snprintf(b, sizeof b, " [%llu-%lld] %s%u", (unsigned long long)(ops[i].inv - b0), ops[i].ret == INF ? -1ll : (long long)(ops[i].ret - b0), ld[i].write ? (ld[i].v ? "set op" : "del ") : (ld[i].v ? "read op" : "read absent "), ld[i].v); s += b; }
            violation("kv-linearizability", "the history of db%d key%d in incarnation %d has no sequential order: %s", db, key, inc, s.c_str()); }
    }
}
// ------------------------------------------------------------------ views are cuts of the sequence-number order
const char* chk_excuse(int inc, int db, uint64_t chk) {
    for (int i = 0; i <= inc; ++i) if (H->crashed[i][db] && chk <= H->Nrep[i][db] && chk > H->F[i][db]) return "snapshot of a checkpoint that was not flushed yet when the process crashed";
    if (chk <= H->cbad[db]) return "snapshot of a checkpoint whose table was being compacted when the process crashed";
    return nullptr;
}
static void check_view(int vi) {
    View& v = H->v[vi]; if (!v.ret) return; int inc = v.inc, db = v.db;
    uint32_t res[MAXKEY]; memset(res, 0, sizeof res);
    for (int e = 0; e < v.ne; ++e) res[H->ve[v.e0 + e].key] = H->ve[v.e0 + e].op;
    uint64_t mmin = H->N[inc][db], mmax = INF; std::vector<uint64_t> cand; std::vector<std::pair<uint64_t, uint64_t>> holes;
    for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.db != db || !alive(w, inc) || w.base) continue;
        if (w.inc == inc && !v.mfix) {
            if (w.fate == ACKED && w.ret < v.inv && w.lo + 1 > mmin) mmin = w.lo + 1;
            if (w.inv > v.ret && w.hi != INF && w.hi - 1 < mmax) mmax = w.hi - 1; }
        if (w.inc == inc && w.bsize && w.bpos == 0 && !w.custom && exact(w) && w.bsize > 1) holes.push_back({ w.hi, w.hi + w.bsize - 2 });
        for (uint64_t c : { w.lo, w.lo + 1, w.hi - 1, w.hi }) if (w.hi != INF || c < INF - 1) cand.push_back(c); }
    cand.push_back(mmin); if (mmax != INF) cand.push_back(mmax);
    if (v.mfix) { cand.clear(); cand.push_back(v.mfix); mmin = mmax = v.mfix; holes.clear(); }
    std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
    int best = 1000; uint64_t bm = 0;
    for (uint64_t m : cand) { if (m < mmin || m > mmax || m >= INF - 1) continue;
        bool hole = false; for (auto& h : holes) if (m >= h.first && m <= h.second) hole = true;
        if (hole) continue;
        int bad = 0; for (int k = 0; k < H->nkey && bad < best; ++k) if (v.cover >> k & 1) if (!consistent(inc, db, k, m, res[k])) bad++;
        if (!bad) return;
        if (bad < best) best = bad, bm = m; }
    const char* unfl = v.kind == 2 ? chk_excuse(inc, db, v.mfix) : nullptr;
    if (unfl && !prop_is("C09")) { SIM_PROBE("kv_excused_checkpoint_view"); return; }   // known finding of C09
    std::string s; char b[300], n1[200];
    static const char* kn[] = { "iterator", "snapshot", "checkpoint snapshot", "recovered", "sequence iterator", "prefix" };
    for (int k = 0; k < H->nkey; ++k) if ((v.cover >> k & 1) && !consistent(inc, db, k, bm, res[k]) && s.size() < 1500) {
        snprintf(b, sizeof b, " key%d shows %s", k, opname(res[k], n1, sizeof n1)); s += b; reindex();
        for (uint32_t o : idx[db][k]) { Write& x = W(o); if (o != res[k] && alive(x, inc) && s.size() < 1500) { snprintf(b, sizeof b, ", other: %s", opname(o, n1, sizeof n1)); s += b; } } s += ";"; }
    kn[2] = unfl ? unfl : "checkpoint snapshot";
    if (best == 1000) violation("kv-view", "%s on db%d: no moment lies between its start and end (sequence numbers %llu..%llu)", kn[v.kind], db, (unsigned long long)mmin, (unsigned long long)mmax);
    violation("kv-view", "%s on db%d (client %d, allowed moments: sequence numbers %llu..%lld) shows no single moment; nearest is %llu where%s", kn[v.kind], db, v.client, (unsigned long long)mmin, mmax == INF ? -1ll : (long long)mmax, (unsigned long long)bm, s.c_str());
}
static void check_monotonic(int inc) {
    // a write seen (or acknowledged) makes every write with a smaller sequence number visible to later reads; batches count as one
    struct Ev { uint64_t at; int db; uint64_t s; uint32_t op; }; std::vector<Ev> ev; char b1[200], b2[200], b3[200];
    auto bound = [&](uint32_t op) { Write& w = W(op); if (exact(w) && w.bsize && !w.custom && w.inc == inc) return w.hi - w.bpos + w.bsize - 1; return w.lo + 1; };
    for (int i = 0; i < H->nr; ++i) { Read& r = H->r[i]; if (r.inc == inc && r.ret && r.res) ev.push_back({ r.ret, r.db, bound(r.res), r.res }); }
    for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.inc == inc && w.fate == ACKED && !w.base) ev.push_back({ w.ret, w.db, bound(i + 1), (uint32_t)i + 1 }); }
    std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
    std::vector<int> ro; for (int i = 0; i < H->nr; ++i) if (H->r[i].inc == inc && H->r[i].ret) ro.push_back(i);
    std::sort(ro.begin(), ro.end(), [](int a, int b) { return H->r[a].inv < H->r[b].inv; });
    uint64_t mx[MAXDB] = { 0 }; uint32_t mo[MAXDB] = { 0 }; size_t p = 0; reindex();
    for (int ri : ro) { Read& r = H->r[ri];
        while (p < ev.size() && ev[p].at < r.inv) { if (ev[p].s > mx[ev[p].db]) mx[ev[p].db] = ev[p].s, mo[ev[p].db] = ev[p].op; p++; }
        uint64_t s = mx[r.db];
        for (uint32_t o : idx[r.db][r.key]) { Write& x = W(o); if (o == r.res || !alive(x, inc) || !definite_in(x, s)) continue;
            if (r.res ? before(W(r.res), x) : false) violation("kv-stale", "a read of db%d key%d returned %s although %s, which is newer, is older than %s seen before", r.db, r.key, opname(r.res, b1, sizeof b1), opname(o, b2, sizeof b2), opname(mo[r.db], b3, sizeof b3));
            if (!r.res && !x.type && x.gone_at == INF) { bool ok = false; for (uint32_t d : idx[r.db][r.key]) { Write& y = W(d); if (y.type && alive(y, inc) && y.inv < r.ret && !before(y, x)) ok = true; }
                if (!ok) violation("kv-stale", "a read of db%d key%d found nothing although %s is older than %s seen before", r.db, r.key, opname(o, b2, sizeof b2), opname(mo[r.db], b3, sizeof b3)); } } }
}
static void check_seq_order(int inc) {
    char b1[200], b2[200];
    for (int db = 0; db < H->ndb; ++db) {
        std::vector<uint32_t> v; for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.db == db && w.inc == inc && !w.base && w.fate != REJECTED && exact(w) && (w.fate == ACKED || w.seen)) v.push_back(i + 1); }
        std::sort(v.begin(), v.end(), [](uint32_t a, uint32_t b) { return W(a).hi < W(b).hi; });
        uint64_t maxinv = 0; uint32_t mo = 0;
        for (size_t i = 0; i < v.size(); ++i) { Write& w = W(v[i]);
            if (i && W(v[i - 1]).hi == w.hi) violation("kv-seq-dup", "two writes own sequence number %llu: %s and %s", (unsigned long long)w.hi, opname(v[i - 1], b1, sizeof b1), opname(v[i], b2, sizeof b2));
            if (w.hi <= H->N[inc][db]) violation("kv-seqnum", "%s was given a sequence number not above %llu, the maximum when the database was opened", opname(v[i], b1, sizeof b1), (unsigned long long)H->N[inc][db]);
            if (w.fate == ACKED && w.ret < maxinv) violation("kv-seq-order", "%s was acknowledged before %s began but has the larger sequence number", opname(v[i], b1, sizeof b1), opname(mo, b2, sizeof b2));
            if (w.inv > maxinv) maxinv = w.inv, mo = v[i]; }
    }
    // global batches: one common order
    for (int i = 0; i < H->nw; ++i) { Write& a = H->w[i]; if (a.gid < 0 || a.bpos || a.inc != inc || !exact(a)) continue;
        for (int j = 0; j < H->nw; ++j) { Write& b = H->w[j]; if (b.gid < 0 || b.bpos || b.inc != inc || b.gid == a.gid || b.db != a.db || !exact(b)) continue;
            for (int k = 0; k < H->nw; ++k) { Write& c = H->w[k]; if (c.gid != a.gid || c.bpos || c.db == a.db || !exact(c)) continue;
                for (int l = 0; l < H->nw; ++l) { Write& d = H->w[l]; if (d.gid != b.gid || d.bpos || d.db != c.db || !exact(d)) continue;
                    if ((a.hi < b.hi) != (c.hi < d.hi)) violation("kv-gbatch-order", "global batches %d and %d are applied in different orders in db%d and db%d", a.gid, b.gid, a.db, c.db); } } } }
}
static void check_obs(int inc) {
    static const char* nm[] = { "maximum", "minimum", "last synced", "last flushed" };
    for (int db = 0; db < H->ndb; ++db) {
        std::vector<int> o; for (int i = 0; i < H->nobs; ++i) if (H->obs[i].inc == inc && H->obs[i].db == db && H->obs[i].ret) o.push_back(i);
        for (int i : o) { SeqObs& x = H->obs[i];
            uint64_t total = std::max(H->N[inc][db], H->Nrep[inc][db]); int64_t inv_cnt = 0; uint64_t floor = H->N[inc][db], cust = 0;
            for (int k = 0; k < H->nw; ++k) { Write& w = H->w[k]; if (w.db != db || w.inc != inc || w.base) continue;
                if (w.inv < x.ret) { inv_cnt++; if (w.custom) { if (w.hi != INF && w.hi > cust) cust = w.hi; } }
                if (w.fate == ACKED && w.ret < x.inv && w.lo + 1 > floor) floor = w.lo + 1; }
            if (cust > total) total = cust;
            uint64_t ceil = total + inv_cnt;   // no more numbers than writes begun
            if ((x.mask & 1) && x.v[0] < floor) violation("kv-max-seq", "reported maximum sequence number %llu of db%d, but %llu was acknowledged before", (unsigned long long)x.v[0], db, (unsigned long long)floor);
            for (int k = 0; k < 4; ++k) if ((x.mask >> k & 1) && x.v[k] > ceil && !(k == 1 && x.v[k] == ceil + 1)) violation("kv-seq-ahead", "reported %s sequence number %llu of db%d is ahead of everything written (%llu)", nm[k], (unsigned long long)x.v[k], db, (unsigned long long)ceil);
            for (int j : o) { SeqObs& y = H->obs[j]; if (y.ret > x.inv) continue;
                for (int k : { 0, 2, 3 }) if ((x.mask >> k & 1) && (y.mask >> k & 1) && x.v[k] < y.v[k]) violation("kv-seq-back", "%s sequence number of db%d moved back from %llu to %llu", nm[k], db, (unsigned long long)y.v[k], (unsigned long long)x.v[k]); }
            // a completed sync moves last-synced at least to everything acknowledged before it began
            if (x.mask & 4) for (int k = 0; k < H->nsy; ++k) { SyncRec& s = H->sy[k]; if (s.db != db || s.inc != inc || s.ret >= x.inv || s.kind == 9) continue;
                uint64_t f = H->N[inc][db]; for (int q = 0; q < H->nw; ++q) { Write& w = H->w[q]; if (w.db == db && w.inc == inc && !w.base && w.fate == ACKED && w.ret < s.inv && w.lo + 1 > f) f = w.lo + 1; }
                if (f > H->N[inc][db] && x.v[2] < f) violation("kv-synced-behind", "last synced sequence number %llu of db%d is below %llu, acknowledged before a completed sync", (unsigned long long)x.v[2], db, (unsigned long long)f); }
        }
    }
}
void check_incarnation(int inc, bool crashed) {
    reindex(); (void)crashed;
    check_seq_order(inc); check_obs(inc); check_monotonic(inc); check_lin(inc);
    for (int i = 0; i < H->nv; ++i) if (H->v[i].inc == inc) check_view(i);
}
void check_recovery(int inc, int db, uint64_t n, const Obs& o, bool after_crash, bool faulty) {
    char b1[200], b2[200]; reindex(); int prev = inc - 1; const uint64_t nrep = n;
    // durability floor
    uint64_t floor = H->floorN[db]; uint32_t fo = 0; const char* why = "an earlier incarnation";
    for (int i = 0; i < H->nsy; ++i) { SyncRec& s = H->sy[i]; if (s.db != db || s.inc != prev || !s.fsync) continue;
        for (int k = 0; k < H->nw; ++k) { Write& w = H->w[k]; if (w.db == db && w.inc == prev && !w.base && w.fate == ACKED && w.ret < s.inv && w.lo + 1 > floor) { floor = w.lo + 1; fo = k + 1; why = "a completed fsync"; } } }
    if (n < floor) violation("kv-lost-synced", "after %s the database is at sequence number %llu, but %s covered %s (sequence number %llu)", after_crash ? "the crash" : "the close", (unsigned long long)n, why, opname(fo, b1, sizeof b1), (unsigned long long)floor);
    H->floorN[db] = floor;
    if (!after_crash) { // everything acknowledged must be there
        for (int k = 0; k < H->nw; ++k) { Write& w = H->w[k]; if (w.db == db && w.inc == prev && !w.base && w.fate == ACKED && w.lo + 1 > n) violation("kv-lost-close", "after a clean close the database is at sequence number %llu, %s is missing", (unsigned long long)n, opname(k + 1, b1, sizeof b1)); }
    }
    // After a crash that lost every log file the database keeps counting from the last synced number of the manifest, so the reported maximum
    // may exceed what was restored: the contents must then be the state of some earlier prefix that still covers everything durable.
    if (after_crash) { auto all = [&](uint64_t m) { for (int k = 0; k < H->nkey; ++k) if (!consistent(prev < 0 ? 0 : prev, db, k, m, o.op[k])) return false; return true; };
        if (!all(n)) for (uint64_t m = n; m-- > floor;) if (all(m)) { n = m; SIM_PROBE("kv_recovered_below_max"); break; } }
    // contents = state at n.  Writes of the previous incarnation above n are lost.
    for (int k = 0; k < H->nkey; ++k) {
        uint32_t op = o.op[k];
        if (op && W(op).lost) violation("kv-resurrected", "key%d of db%d shows %s, which an earlier recovery had lost", k, db, opname(op, b1, sizeof b1));
        if (!consistent(prev < 0 ? 0 : prev, db, k, n, op)) {
            std::string s; for (uint32_t x : idx[db][k]) { Write& w = W(x); if (alive(w, prev < 0 ? 0 : prev) && x != op && w.lo < n && s.size() < 1200) { s += "; "; s += opname(x, b2, sizeof b2); } }
            violation(after_crash ? "kv-recovery" : "kv-reopen", "after %s the database is at sequence number %llu but key%d of db%d is %s, which is not the state of any write prefix; candidates%s", after_crash ? "the crash" : "the close", (unsigned long long)n, k, db, opname(op, b1, sizeof b1), s.c_str()); }
    }
    for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.db != db || w.lost || w.base || w.inc >= inc) continue;
        if (w.lo >= n) { w.lost = inc; continue; }
        if (o.op[w.key] == (uint32_t)i + 1) continue;
        if (!exact(w)) { w.gone_at = std::min(w.gone_at, n); w.unsure = 1; if (w.hi > n) w.hi = n; } }
    // batch atomicity across the crash: the recovered prefix must not end inside a batch
    if (after_crash) for (int i = 0; i < H->nw; ++i) { Write& w = H->w[i]; if (w.db != db || w.bsize < 2 || w.bpos || w.custom || !exact(w) || w.inc != prev) continue;
        if (!(w.hi <= n && n < w.hi + w.bsize - 1)) continue;
        SIM_PROBE("kv_batch_torn");
        if (prop_is("C07")) violation("kv-batch-torn", "after the crash the database is at sequence number %llu, inside a batch of %d records that spans %llu..%llu", (unsigned long long)n, w.bsize, (unsigned long long)w.hi, (unsigned long long)w.hi + w.bsize - 1); }
    (void)faulty;
    if (H->comp[db] && after_crash) H->cbad[db] = nrep;
    H->comp[db] = 0;
    H->N[inc][db] = n; H->Nrep[inc][db] = nrep; H->crashed[inc][db] = after_crash;
    for (int k = 0; k < H->nkey; ++k) { H->base[inc][db][k] = o.op[k];
        if (!o.op[k] && n) { if (H->nw >= MAXW) overflow("writes"); Write& w = H->w[H->nw++]; memset(&w, 0, sizeof w); w.type = 1; w.db = db; w.key = k; w.inc = inc; w.client = 255; w.fate = ACKED; w.base = 1; w.lo = n - 1; w.hi = n; w.b0 = -1; w.gid = -1; w.gone_at = INF; w.inv = w.ret = stamp(); } }
    reindex();
}
}
