// C18: the logger. Threads put messages of every level, flush, change levels, while files rotate and are compressed; sessions stop and restart it.
#include "../run.h"
#include <logger.h>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
using namespace sim;
namespace {
enum { MAXC = 4, MAXOP = 40, MAXM = 4000, MAXL = 2, MAXS = 3 };
enum { NEVER, MUST, MAYBE };
struct Msg { uint8_t lg, th, level, fate, sess; uint16_t seq; uint32_t len; bool big, acked; int cb, cbmax; uint64_t acked_at; };
struct Prog { uint8_t op; uint32_t a, b; };
struct W {
    int nl, nc, nsess, nop[MAXC]; int elems[MAXL]; uint64_t limit[MAXL]; int maxfiles[MAXL]; bool cb, destroy_between, big, tarfail, disp, lvlchange, late; int path_kind;
    Prog prog[MAXS][MAXC][MAXOP]; int nm; Msg m[MAXM];
};
W& w() { return *(W*)wsh; }
const uint64_t MS = 1000000ull, SEC = 1000000000ull;
SimpleLogger* lg[MAXL]; int lvl_lo[MAXL], lvl_hi[MAXL]; uint64_t lvl_ver[MAXL]; int seqno[MAXL][MAXC]; int nstart[MAXL], nstop[MAXL];
const char* PATHS[2][MAXL] = { { "/sim/logs/alpha.log", "/sim/logs/beta.log" }, { "/sim/logs/sys.log", "/sim/logs/sys.log2" } };
const char* path(int l) { return PATHS[w().path_kind][l]; }
void configure() {
    Rng r(rseed(21)); W& x = w(); memset(&x, 0, sizeof x);
    x.nl = r.onein(3) ? 2 : 1; x.nc = r.range(1, MAXC); x.nsess = r.onein(3) ? r.range(2, MAXS) : 1;
    for (int l = 0; l < MAXL; ++l) { static const int el[] = { 1, 2, 3, 4, 8, 16, 64 }; x.elems[l] = r.pick(el); static const uint64_t li[] = { 0, 300, 1500, 6000, 40000 }; x.limit[l] = r.pick(li); x.maxfiles[l] = r.onein(3) ? r.range(1, 3) : 1000; }
    x.cb = r.onein(4); x.destroy_between = r.onein(2); x.big = r.onein(4); x.tarfail = r.onein(5); x.disp = r.onein(6); x.lvlchange = r.onein(3); x.late = r.onein(3); x.path_kind = r.onein(5) ? 1 : 0;
    if (x.path_kind) for (int l = 0; l < MAXL; ++l) x.maxfiles[l] = 1000;
    for (int c = 0; c < x.nc; ++c) x.nop[c] = r.range(3, x.nc > 2 ? 20 : MAXOP);
    for (int s = 0; s < x.nsess; ++s) for (int c = 0; c < x.nc; ++c) for (int i = 0; i < MAXOP; ++i) { Prog& p = x.prog[s][c][i]; p.op = r.below(20); p.a = r.next(); p.b = r.next(); }
    snprintf(ctl->desc, sizeof ctl->desc, "%d loggers (%d/%d elements, rotate at %llu/%llu bytes, keep %d/%d files), %d threads, %d sessions, %d/%d operations, callbacks %d, long messages %d, failing archives %d, level changes %d", x.nl, x.elems[0], x.elems[1], (unsigned long long)x.limit[0], (unsigned long long)x.limit[1], x.maxfiles[0], x.maxfiles[1], x.nc, x.nsess, x.nop[0], x.nop[1], x.cb, x.big, x.tarfail, x.lvlchange);
}
void plan(int) {
    Rng r(rseed(1)); default_sched(r, sh->sc); static const double pm[] = { 0, 1e-3, 0.01, 0.05 }, ps[] = { 0.02, 0.1, 0.4 }; sh->sc.p_mem = r.pick(pm); sh->sc.p_sync = r.pick(ps);
    sh->sc.p_spurious = r.onein(3) ? 0.01 : 0; sh->sc.max_ns = 3600ull * SEC; sh->fc.lat_base_ns = 2000; sh->fc.lat_spread_ns = 20000;
    if (r.onein(3)) { FaultRule& f = sh->fc.rules[sh->fc.nrules++]; memset(&f, 0, sizeof f); f.classes = ~0u; f.ops = IO_WRITE; f.kind = r.onein(2) ? FK_SHORT : FK_EINTR; f.p = 0.1; f.to = ~0ull; f.max_hits = 1000; }
    vfs_fail_archives(w().tarfail ? 3 : 0);
}
void mkpay(std::string& s, int l, int th, int seq, uint32_t len) {
    char b[40]; snprintf(b, sizeof b, "<<%d.%d.%d:", l, th, seq); s = b; uint32_t x = l * 131 + th * 31 + seq * 7 + 1;
    for (uint32_t i = 0; i < len; ++i) { x = x * 1664525u + 1013904223u; s += "abcdefghijklmnop"[x >> 28]; }
    s += ":>>";
}
struct Text { int rev; std::string body; };
int64_t read_file(const std::string& p, std::string& out) { int64_t n = vfs_size(p.c_str()); if (n < 0) return -1; out.resize(n); if (n) vfs_read_all(p.c_str(), &out[0], n); return n; }
// all text of a logger in order of revision; *gap is set when files have been removed
void collect(int l, std::string& all, bool* removed, int* nrev) {
    *removed = false; int maxrev = -1; std::string base = path(l); std::string dir = "/sim/logs", nm = base.substr(dir.size() + 1); static char ls[2000][200]; int n = vfs_list(dir.c_str(), ls, 2000); std::vector<int> have;
    for (int i = 0; i < n; ++i) { const char* q = strrchr(ls[i], '/'); std::string f = q ? q + 1 : ls[i]; if (f.compare(0, nm.size(), nm)) continue; f = f.substr(nm.size());
        if (f.size() > 7 && f.compare(f.size() - 7, 7, ".tar.gz") == 0) f = f.substr(0, f.size() - 7); int rev; if (f.empty()) rev = 0; else if (f[0] != '.' || !isdigit(f[1])) continue; else rev = atoi(f.c_str() + 1);
        if (rev > maxrev) maxrev = rev; have.push_back(rev); }
    int cnt = 0; all.clear(); bool first_gap = false;
    for (int r = 0; r <= maxrev; ++r) { std::string p = r ? base + "." + std::to_string(r) : base, t; 
        if (read_file(p, t) < 0 && read_file(p + ".tar.gz", t) < 0) { bool h = false; for (int k : have) h |= k == r; (void)h; first_gap = true; continue; } cnt++; all += t; }
    *removed = first_gap && w().maxfiles[l] < 1000; *nrev = cnt;
    if (first_gap && w().path_kind == 0 && w().maxfiles[l] < 1000) { int got = 0; for (int r = maxrev; r >= 0; --r) { bool h = false; for (int k : have) h |= k == r; if (!h) break; got++; }
        if (got < w().maxfiles[l] + 1 && got < maxrev + 1) violation("log-files", "logger %d keeps only its last %d files although %d rotated ones are to be kept", l, got, w().maxfiles[l]); }
}
// checks the files of logger l. must_before: messages acknowledged before that stamp have to be there.
void check_files(int l, uint64_t must_before, const char* when, bool final) {
    W& x = w(); std::string all; bool removed; int nrev; collect(l, all, &removed, &nrev);
    static short seen[MAXM]; memset(seen, 0, sizeof seen); static int idx[MAXL][MAXC][MAXM]; 
    for (int c = 0; c < MAXC; ++c) memset(idx[l][c], -1, sizeof idx[l][c]); for (int i = 0; i < x.nm; ++i) if (x.m[i].lg == l) idx[l][x.m[i].th][x.m[i].seq] = i;
    int last[MAXC]; for (int c = 0; c < MAXC; ++c) last[c] = -1; int starts = 0, stops = 0; size_t pos = 0; static const char* lv[7] = { "====", "FATL", "ERRO", "WARN", "INFO", "DEBG", "TRAC" };
    static int tids[MAXC][MAXS]; memset(tids, 0, sizeof tids);
    while (pos < all.size()) {
        size_t e = all.find('\n', pos); bool cut = e == std::string::npos; std::string ln = all.substr(pos, cut ? std::string::npos : e - pos); pos = cut ? all.size() : e + 1;
        if (cut) { if (final) violation("log-mangled", "logger %d (%s): last line does not end with a newline: %.60s", l, when, ln.c_str()); break; }
        int y, mo, d, h, mi, s, ms, us, th2, tm2; char sg; unsigned tid; char lev[8]; int off = 0;
        if (sscanf(ln.c_str(), "%d-%d-%dT%d:%d:%d.%d_%d%c%d:%d [%u] [%4[A-Z=]] %n", &y, &mo, &d, &h, &mi, &s, &ms, &us, &sg, &th2, &tm2, &tid, lev, &off) < 13 || !off) violation("log-mangled", "logger %d (%s): a line without a proper header: \"%.100s\"", l, when, ln.c_str());
        std::string rest = ln.substr(off);
        if (!rest.compare(0, 14, "Start logger: ")) { starts++; continue; } if (!rest.compare(0, 13, "Stop logger: ")) { stops++; continue; }
        int a, t, q, o2 = 0; if (sscanf(rest.c_str(), "<<%d.%d.%d:%n", &a, &t, &q, &o2) < 3 || !o2 || a != l || t < 0 || t >= MAXC || q < 0 || q >= MAXM || idx[l][t][q] < 0) violation("log-mangled", "logger %d (%s): a line that nobody wrote: \"%.100s\"", l, when, ln.c_str());
        int i = idx[l][t][q]; Msg& m = x.m[i]; std::string pay; mkpay(pay, l, t, q, m.len);
        if (strcmp(lev, lv[m.level])) violation("log-mangled", "logger %d (%s): message %d of thread %d has level %s instead of %s", l, when, q, t, lev, lv[m.level]);
        if (!m.big) { std::string exp = pay + "\t[logger.cc:"; if (rest.compare(0, exp.size(), exp) || rest.compare(rest.size() - 9, 9, "client()]")) violation("log-mangled", "logger %d (%s): message %d of thread %d is mangled: \"%.60s ... %.30s\" (%zu bytes, payload %u)", l, when, q, t, rest.c_str(), rest.substr(rest.size() > 30 ? rest.size() - 30 : 0).c_str(), rest.size(), m.len); }
        else { size_t n = 0; while (n < rest.size() && n < pay.size() && rest[n] == pay[n]) n++; if (ln.size() > 4096 || (n < 3900 && n < pay.size()) || (n < pay.size() && n != rest.size())) violation("log-mangled", "logger %d (%s): long message %d of thread %d is mangled after %zu of %zu bytes", l, when, q, t, n, pay.size()); }
        if (ln.find('\0') != std::string::npos) violation("log-mangled", "logger %d (%s): message %d of thread %d contains a zero byte", l, when, q, t);
        if (seen[i]++) violation("log-twice", "logger %d (%s): message %d of thread %d appears %d times", l, when, q, t, seen[i]);
        if (m.fate == NEVER && m.acked) violation("log-level", "logger %d (%s): message %d of thread %d has level %d above the configured one and appears", l, when, q, t, m.level);
        if (q < last[t]) violation("log-order", "logger %d (%s): message %d of thread %d appears after message %d", l, when, q, t, last[t]); last[t] = q;
        if (tids[t][m.sess] && tids[t][m.sess] != (int)tid) violation("log-mangled", "logger %d (%s): messages of thread %d carry two thread ids", l, when, t); tids[t][m.sess] = tid;
    }
    bool any[MAXC] = {};
    for (int i = 0; i < x.nm; ++i) { Msg& m = x.m[i]; if (m.lg != l) continue; if (seen[i]) any[m.th] = true; 
        if (!seen[i] && m.acked && m.fate == MUST && m.acked_at < must_before && (!removed || any[m.th])) violation("log-lost", "logger %d (%s): message %d of thread %d (level %d, %u bytes) had been logged %s and is not in the files", l, when, m.seq, m.th, m.level, m.len, final ? "before the stop" : "before the flush"); }
    if (final && !removed && (starts != nstart[l] || stops != nstop[l])) violation("log-lost", "logger %d (%s): %d start lines and %d stop lines instead of %d and %d", l, when, starts, stops, nstart[l], nstop[l]);
    SIM_PROBE("log_checked"); if (nrev > 2) SIM_PROBE("log_rotated"); if (removed) SIM_PROBE("log_removed");
}
int cur_sess; bool stopping[MAXL];
bool on_cb(int level, uint64_t, size_t len, const char* msg) {
    int a, t, q, o = 0; std::string s(msg, strnlen(msg, 5000)); if (sscanf(s.c_str(), "<<%d.%d.%d:%n", &a, &t, &q, &o) < 3 || !o) return true; W& x = w(); NoPreempt np;
    for (int i = x.nm - 1; i >= 0; --i) { Msg& m = x.m[i]; if (m.lg == a && m.th == t && m.seq == q) { m.cb++; std::string pay; mkpay(pay, a, t, q, m.len); if (m.level != level || (!m.big && (s != pay || len != pay.size())) || len > 4096) violation("log-callback", "the callback got message %d of thread %d wrongly (level %d, length %zu)", q, t, level, len); if (m.cb > 1) violation("log-callback", "the callback got message %d of thread %d twice", q, t); return true; } }
    violation("log-callback", "the callback got a message nobody logged: %.50s", msg); return true;
}
void client(int s, int c) {
    char nm[16]; snprintf(nm, sizeof nm, "client%d", c); set_name(nm); W& x = w();
    for (int i = 0; i < x.nop[c]; ++i) { if (!item_on(s * MAXC + c, i)) continue; Prog& p = x.prog[s][c][i]; int l = p.b % x.nl; SimpleLogger* ll = lg[l]; 
        if (p.op < 13) { Msg* m; uint64_t v0; { NoPreempt np; if (x.nm >= MAXM - 200) return; m = &x.m[x.nm++]; m->lg = l; m->th = c; m->sess = s; m->seq = seqno[l][c]++; static const uint8_t lvs[] = { 1, 2, 3, 4, 4, 4, 5, 6 }; m->level = lvs[p.a % 8]; m->len = (p.a >> 8) % 6 ? (p.a >> 12) % 60 : (p.a >> 12) % 400; if (x.big && (p.a >> 8) % 5 == 0) m->len = 3700 + (p.a >> 12) % 900; m->big = m->len > 3940; m->fate = MAYBE; v0 = lvl_ver[l]; }
            std::string pay; mkpay(pay, l, c, m->seq, m->len); uint64_t t0 = now_ns();
            int lo0, hi0; { NoPreempt np; lo0 = lvl_lo[l]; hi0 = lvl_hi[l]; }
            switch (p.a >> 28) { case 0: case 1: case 2: _stream_(m->level, ll) << pay; break; default: _log_(m->level, ll, "%s", pay.c_str()); }
            if (now_ns() - t0 > 120 * SEC) violation("log-blocked", "logging blocked its caller for %llu s", (unsigned long long)((now_ns() - t0) / SEC));
            NoPreempt np; if (lvl_ver[l] == v0) m->fate = m->level <= lo0 ? MUST : m->level > hi0 ? NEVER : MAYBE; if (x.cb && m->level <= 6 && m->cb != 1) violation("log-callback", "the callback got message %d of thread %d %d times", m->seq, c, m->cb); m->acked = true; m->acked_at = stamp(); ctl->work++; }
        else if (p.op < 15) { uint64_t st; { NoPreempt np; st = stamp(); } ll->flushAll(); NoPreempt np; check_files(l, st, "after flushAll", false); SIM_PROBE("log_flushall"); }
        else if (p.op < 16) { if (!x.lvlchange || c) continue; int nv = (int)(p.a % 8) - 1; { NoPreempt np; lvl_ver[l]++; if (nv < lvl_lo[l]) lvl_lo[l] = nv; if (nv > lvl_hi[l]) lvl_hi[l] = nv; } ll->setLogLevel(nv); if (ll->getLogLevel() != nv) violation("log-setlevel", "setLogLevel(%d) left the level at %d", nv, ll->getLogLevel()); NoPreempt np; lvl_ver[l]++; lvl_lo[l] = lvl_hi[l] = nv; ll->setLogLevel(7 + p.b % 3); if (ll->getLogLevel() != nv) violation("log-setlevel", "setLogLevel with an invalid level was taken"); }
        else if (p.op < 17) { if (x.maxfiles[l] < 1000) continue; ll->setMaxLogFiles(1000 + p.a % 10); ll->setMaxLogFiles(0); }
        else sleep_ns(p.op < 19 ? p.a % (2 * MS) : p.a % (900 * MS)); }
}
void body() {
    W& x = w(); memset(nstart, 0, sizeof nstart); memset(nstop, 0, sizeof nstop); memset(seqno, 0, sizeof seqno); vfs_mkdir("/sim/logs");
    for (int s = 0; s < x.nsess; ++s) {
        cur_sess = s;
        for (int l = 0; l < x.nl; ++l) { lg[l] = new SimpleLogger(path(l), x.elems[l], x.limit[l], x.maxfiles[l]); lg[l]->setDispLevel(x.disp ? 6 : -1);
            if (x.cb) lg[l]->setGlobalCallback([](int, const char*, const char*, size_t, const SimpleLogger::CtxMap&) { return true; }, [](int lv, const char*, const char*, size_t, uint64_t us, uint32_t, size_t n, const char* m, const SimpleLogger::CtxMap&) { return on_cb(lv, us, n, m); });
            { NoPreempt np; lvl_lo[l] = lvl_hi[l] = 4; lvl_ver[l]++; nstart[l]++; } if (lg[l]->start()) violation("log-start", "start of the logger failed"); 
            if (x.prog[s][0][l].b % 3 == 0) { lg[l]->setLogLevel(6); NoPreempt np; lvl_lo[l] = lvl_hi[l] = 6; lvl_ver[l]++; } }
        std::vector<std::thread> th; std::atomic<int> fin(0); std::atomic<int>* pf = &fin; for (int c = 0; c < x.nc; ++c) th.emplace_back([s, c, pf]() { client(s, c); pf->fetch_add(1); });
        if (!x.late) for (auto& t : th) t.join(); else while (fin < x.nc) sleep_ns(MS);    // late: the threads end while the logger and its manager are taken down
        for (int l = 0; l < x.nl; ++l) { uint64_t st = stamp(), t0 = now_ns(); if (lvl_lo[l] >= 0) nstop[l]++; if (x.prog[s][0][l].b % 5) { lg[l]->stop(); } else { delete lg[l]; lg[l] = nullptr; } if (now_ns() - t0 > 300 * SEC) violation("log-blocked", "stopping the logger took %llu s", (unsigned long long)((now_ns() - t0) / SEC));
            NoPreempt np; check_files(l, st, "after stop", true); }
        for (int l = 0; l < x.nl; ++l) delete lg[l];
        if (x.destroy_between || s == x.nsess - 1) { SimpleLogger::shutdown(); SIM_PROBE("log_mgr_shutdown"); }
        if (x.late) for (auto& t : th) t.join();
    }
}
} // namespace
sim::World world_logger = { "logger", sizeof(W), configure, plan, body, 1 };
