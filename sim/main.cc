// Driver: executes simulated runs, checks determinism, minimises, writes replay files.
#include "run.h"
#include <algorithm>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>

using namespace sim;
extern "C" { FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fflush(FILE*); }

namespace sim {
char* wsh; Ctl* ctl;
bool item_on(uint32_t g, uint32_t i) {
    if (!ctl->n_mask) return true;
    uint64_t k = ((uint64_t)g << 32) | i;
    int lo = 0, hi = ctl->n_mask;
    while (lo < hi) { int m = (lo + hi) / 2; if (ctl->mask[m] < k) lo = m + 1; else hi = m; }
    return !(lo < ctl->n_mask && ctl->mask[lo] == k);
}
uint64_t rseed(uint64_t tag) { return mix2(sh->seed, tag * 0x9e3779b97f4a7c15ULL + 17); }

void default_sched(Rng& r, SchedCfg& sc) {
    memset(&sc, 0, sizeof sc);
    int m = r.below(100);
    sc.mode = m < 10 ? 0 : m < 78 ? 1 : 2;
    static const double ps[] = { 0.002, 0.01, 0.03, 0.1, 0.3 };
    static const double pm[] = { 0, 1e-5, 1e-4, 4e-4, 2e-3 };
    sc.p_sync = r.pick(ps); sc.p_mem = r.pick(pm);
    sc.p_stall = r.onein(3) ? 0.3 : r.onein(2) ? 0.05 : 0;
    static const int ms[] = { 20, 200, 2000, 20000 };
    sc.max_stall = r.pick(ms);
    sc.p_tstall = r.onein(4) ? 0.02 : r.onein(3) ? 0.002 : 0;
    sc.pct_points = r.range(1, 12); static const int pl[] = { 20000, 100000, 500000, 2000000 }; sc.pct_len = r.pick(pl);
    sc.quantum = 20000; sc.max_sync = 4000000; sc.max_mem = 400000000; sc.max_ns = 3600ull * 1000000000ull; sc.tick_ns = 200;
    sc.p_spurious = r.onein(4) ? 0.05 : 0;
}
} // namespace sim

static double wall_now() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Replay {
    std::string world, prop; uint64_t seed = 0; bool explicit_mode = false;
    std::vector<uint64_t> mask; std::vector<Sched> sched; std::vector<Fault> fault;
    std::string kind, msg; uint64_t hash = 0;
};
struct Outcome { int status; std::string kind, msg; uint64_t hash; int n_inc; };

static Sched* exp_sched_buf; static Fault* exp_fault_buf;

static World* find_world(const std::string& n) { for (int i = 0; worlds[i]; ++i) if (n == worlds[i]->name) return worlds[i]; return nullptr; }

static Outcome execute(const Replay& r) {
    World* w = find_world(r.world);
    if (!w) { fprintf(stderr, "no world %s\n", r.world.c_str()); _exit(2); }
    // wipe the run's state
    int ns = sh->n_sched, nf = sh->n_fault; (void)ns; (void)nf;
    Sched* es = sh->exp_sched; Fault* ef = sh->exp_fault; (void)es; (void)ef;
    sh->seed = r.seed; snprintf(sh->world, sizeof sh->world, "%s", w->name);
    sh->incarnation = 0; sh->status = RS_NONE; sh->vio_kind[0] = 0; sh->vio_msg[0] = 0; sh->hash = 0x1234; sh->sched_hash = 0;
    sh->sync_steps = sh->mem_steps = sh->switches = sh->preempts = sh->io_ops = sh->sim_ns = 0; sh->base_ns = 1000000; sh->wall_skew_ns = 0;
    memset(sh->fault_cnt, 0, sizeof sh->fault_cnt); sh->n_sched = sh->n_fault = 0; sh->sched_overflow = sh->fault_overflow = false;
    snprintf(ctl->prop, sizeof ctl->prop, "%s", r.prop.c_str());
    ctl->more = false; ctl->work = 0; ctl->desc[0] = 0;
    ctl->n_mask = (int)std::min<size_t>(r.mask.size(), 20000); for (int i = 0; i < ctl->n_mask; ++i) ctl->mask[i] = r.mask[i];
    memset(wsh, 0, w->shared_size);
    memset(&sh->fc, 0, sizeof sh->fc); memset(&sh->sc, 0, sizeof sh->sc);
    vfs_reset();
    Outcome o; o.n_inc = 0;
    for (int inc = 0; inc < w->max_inc; ++inc) {
        sh->incarnation = inc; ctl->more = false;
        memset(&sh->fc, 0, sizeof sh->fc); memset(&sh->sc, 0, sizeof sh->sc);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl);
            // world code never runs in the parent, so no lazily initialised state can leak from one run to the next
            if (inc == 0) w->configure();
            w->plan(inc);
            if (r.explicit_mode) {
                sh->sc.mode = 3; sh->fc.explicit_mode = true;
                memcpy(exp_sched_buf, r.sched.data(), r.sched.size() * sizeof(Sched)); memcpy(exp_fault_buf, r.fault.data(), r.fault.size() * sizeof(Fault));
                sh->exp_sched = exp_sched_buf; sh->exp_fault = exp_fault_buf; sh->n_exp_sched = r.sched.size(); sh->n_exp_fault = r.fault.size();
            } else { sh->n_exp_sched = sh->n_exp_fault = 0; }
            child_start(); vfs_start_incarnation();
            run_main(w->body);
        }
        if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(2); }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        o.n_inc++;
        if (WIFSIGNALED(st)) {
            sh->status = RS_ERROR; snprintf(sh->vio_kind, sizeof sh->vio_kind, "harness"); snprintf(sh->vio_msg, sizeof sh->vio_msg, "child killed by signal %d (world %s seed %llu inc %d)", WTERMSIG(st), w->name, (unsigned long long)r.seed, inc); break;
        }
        if (sh->status == RS_RUNNING) { sh->status = RS_ERROR; snprintf(sh->vio_kind, sizeof sh->vio_kind, "harness"); snprintf(sh->vio_msg, sizeof sh->vio_msg, "child exited with %d", WEXITSTATUS(st)); break; }
        if (sh->status == RS_CRASHED) continue;
        if (sh->status == RS_OK && ctl->more) continue;
        break;
    }
    o.status = sh->status; o.kind = sh->vio_kind; o.msg = sh->vio_msg; o.hash = sh->hash;
    if (o.status == RS_CRASHED) { o.status = RS_ERROR; o.kind = "harness"; o.msg = "crashed in the last incarnation"; }
    return o;
}

// ---------------------------------------------------------------- replay files
static void write_replay(const char* path, const Replay& r) {
    FILE* f = __real_fopen(path, "w"); if (!f) return;
    std::string s; char b[256];
    auto add = [&](const char* fmt, auto... a) { snprintf(b, sizeof b, fmt, a...); s += b; };
    s += "# deterministic-simulation replay file\n";
    add("world %s\nprop %s\nseed %llu\nmode %s\nhash %llu\nkind %s\n", r.world.c_str(), r.prop.c_str(), (unsigned long long)r.seed, r.explicit_mode ? "explicit" : "seed", (unsigned long long)r.hash, r.kind.c_str());
    s += "msg "; for (char c : r.msg) s += c == '\n' ? ' ' : c; s += "\n";
    for (auto m : r.mask) add("mask %llu\n", (unsigned long long)m);
    for (auto& x : r.sched) add("sched %u %u %llu %d %d\n", x.inc_fid, x.type, (unsigned long long)x.at, x.pick, x.stall);
    for (auto& x : r.fault) add("fault %u %u %u %llu %llu %llu # %s\n", x.inc, x.fid, x.kind, (unsigned long long)x.at, (unsigned long long)x.arg, (unsigned long long)x.arg2, faultName(x.kind));
    __real_fwrite(s.data(), 1, s.size(), f); __real_fclose(f);
}
static bool read_replay(const char* path, Replay& r) {
    int fd = syscall(SYS_open, path, O_RDONLY); if (fd < 0) return false;
    std::string s; char buf[65536]; long n;
    while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s.append(buf, n);
    syscall(SYS_close, fd);
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size();
        std::string l = s.substr(p, e - p); p = e + 1;
        if (l.empty() || l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "world") r.world = v; else if (k == "prop") r.prop = v;
        else if (k == "seed") r.seed = strtoull(v.c_str(), 0, 10); else if (k == "mode") r.explicit_mode = v == "explicit";
        else if (k == "hash") r.hash = strtoull(v.c_str(), 0, 10); else if (k == "kind") r.kind = v; else if (k == "msg") r.msg = v;
        else if (k == "mask") r.mask.push_back(strtoull(v.c_str(), 0, 10));
        else if (k == "sched") { Sched x; unsigned long long at; if (sscanf(v.c_str(), "%u %u %llu %d %d", &x.inc_fid, &x.type, &at, &x.pick, &x.stall) == 5) { x.at = at; r.sched.push_back(x); } }
        else if (k == "fault") { Fault x; unsigned i, f, kd; unsigned long long a, b, c; if (sscanf(v.c_str(), "%u %u %u %llu %llu %llu", &i, &f, &kd, &a, &b, &c) == 6) { x.inc = i; x.fid = f; x.kind = kd; x.at = a; x.arg = b; x.arg2 = c; r.fault.push_back(x); } }
    }
    return true;
}
static std::string core_msg(const std::string& m) { size_t p = m.find(" | fiber"); return p == std::string::npos ? m : m.substr(0, p); }

static void sort_sched(std::vector<Sched>& v) {
    std::stable_sort(v.begin(), v.end(), [](const Sched& a, const Sched& b) { if (a.inc_fid != b.inc_fid) return a.inc_fid < b.inc_fid; if (a.type != b.type) return a.type < b.type; return a.at < b.at; });
}

// ---------------------------------------------------------------- minimisation
struct Mini { double deadline; int tries = 0; std::string kind; };
static bool still(const Replay& c, Mini& m) {
    if (wall_now() > m.deadline) return false;
    m.tries++;
    Outcome o = execute(c);
    return o.status == RS_VIOLATION && o.kind == m.kind;
}
template <typename T, typename Set> static void ddmin(std::vector<T>& v, Mini& m, Set tryset) {
    size_t n = 2;
    while (v.size() >= 1 && wall_now() < m.deadline) {
        size_t chunk = (v.size() + n - 1) / n; bool any = false;
        for (size_t i = 0; i < v.size() && wall_now() < m.deadline;) {
            std::vector<T> c(v.begin(), v.begin() + i); size_t e = std::min(i + chunk, v.size());
            c.insert(c.end(), v.begin() + e, v.end());
            if (tryset(c)) { v = c; any = true; } else i = e;
        }
        if (chunk <= 1 && !any) break;
        if (chunk <= 1) { n = v.size() ? v.size() : 1; continue; }
        n = std::min(v.size() ? v.size() : 1, n * 2);
    }
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static const char* arg(int c, char** v, const char* k, const char* d) { for (int i = 1; i + 1 < c; ++i) if (!strcmp(v[i], k)) return v[i + 1]; return d; }
static bool flag(int c, char** v, const char* k) { for (int i = 1; i < c; ++i) if (!strcmp(v[i], k)) return true; return false; }

struct Known { std::string prop, kind, match; uint64_t hits = 0; };

int main(int argc, char** argv) {
    rt_init(); vfs_init();
    wsh = (char*)raw_mmap_shared(WSH_SIZE); ctl = (Ctl*)raw_mmap_shared(sizeof(Ctl));
    exp_sched_buf = (Sched*)raw_mmap_shared(sizeof(Sched) * MAXSCHED); exp_fault_buf = (Fault*)raw_mmap_shared(sizeof(Fault) * MAXFAULT);
    verbose = atoi(arg(argc, argv, "-v", "0"));
    const char* rp = arg(argc, argv, "--replay", nullptr);
    if (rp) {
        Replay r; if (!read_replay(rp, r)) { printf("cannot read %s\n", rp); fflush(stdout); _exit(2); }
        Outcome o = execute(r);
        bool same = o.status == RS_VIOLATION && o.kind == r.kind && core_msg(o.msg) == core_msg(r.msg) && (r.hash == 0 || o.hash == r.hash);
        std::string s = std::string("{\"status\":") + std::to_string(o.status) + ",\"kind\":\"" + jesc(o.kind) + "\",\"msg\":\"" + jesc(o.msg) + "\",\"hash\":" + std::to_string(o.hash) + ",\"reproduced\":" + (same ? "true" : "false") + "}\n";
        syscall(SYS_write, 1, s.data(), s.size());
        _exit(o.status == RS_VIOLATION ? (same ? 1 : 3) : o.status == RS_OK ? 0 : 2);
    }
    std::string world = arg(argc, argv, "--world", ""), prop = arg(argc, argv, "--prop", "");
    uint64_t seed0 = strtoull(arg(argc, argv, "--seed0", "1"), 0, 10);
    const char* one = arg(argc, argv, "--seed", nullptr);
    double secs = atof(arg(argc, argv, "--secs", "10")); uint64_t maxruns = strtoull(arg(argc, argv, "--runs", "1000000000"), 0, 10);
    double minisecs = atof(arg(argc, argv, "--minisecs", "20"));
    const char* out = arg(argc, argv, "--out", nullptr); const char* rout = arg(argc, argv, "--replay-out", "/tmp/replay.txt");
    bool keep = flag(argc, argv, "--keep-going"), nomini = flag(argc, argv, "--no-mini"), detcheck = flag(argc, argv, "--detcheck");
    std::vector<Known> known;
    if (const char* kf = arg(argc, argv, "--known", nullptr)) {
        int fd = syscall(SYS_open, kf, O_RDONLY); std::string s; char buf[4096]; long n; while (fd >= 0 && (n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s.append(buf, n);
        size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1;
            // prop \t kind \t match
            size_t a = l.find('\t'), b = a == std::string::npos ? a : l.find('\t', a + 1); if (b == std::string::npos) continue;
            Known k; k.prop = l.substr(0, a); k.kind = l.substr(a + 1, b - a - 1); k.match = l.substr(b + 1); known.push_back(k); }
    }
    double t0 = wall_now();
    uint64_t runs = 0, crashes = 0, viols = 0, errors = 0, det_checked = 0, det_bad = 0, incs = 0, overflow = 0;
    uint64_t sync_steps = 0, mem_steps = 0, switches = 0, preempts = 0, io_ops = 0, sim_ns = 0, work = 0;
    uint64_t fcnt[FK_MAX] = {0}; uint64_t runs_with_fault[FK_MAX] = {0};
    std::vector<uint64_t> schedset; static uint8_t swall[65536 / 8];
    std::string vlines; std::string errmsg; std::string samples; int samples_n = 0; const char* hout = arg(argc, argv, "--hashes", nullptr);
    for (uint64_t i = 0; runs < maxruns && (wall_now() - t0 < secs); ++i) {
        Replay r; r.world = world; r.prop = prop; r.seed = one ? strtoull(one, 0, 10) : mix2(seed0, i) >> 1;
        Outcome o = execute(r);
        runs++; incs += o.n_inc; sync_steps += sh->sync_steps; mem_steps += sh->mem_steps; switches += sh->switches; preempts += sh->preempts; io_ops += sh->io_ops; sim_ns += sh->sim_ns; work += ctl->work;
        for (int k = 0; k < FK_MAX; ++k) { fcnt[k] += sh->fault_cnt[k]; if (sh->fault_cnt[k]) runs_with_fault[k]++; }
        for (size_t k = 0; k < sizeof swall; ++k) swall[k] |= sh->swmap[k];
        { uint64_t nf = 0; for (int k = 1; k < FK_MAX; ++k) nf += sh->fault_cnt[k];
          if (sh->preempts + nf > 0 && schedset.size() < 2000000) schedset.push_back(mix2(sh->sched_hash, sh->hash));
          if (samples_n < 3 && o.status == RS_OK && (sh->preempts + nf > 0)) { samples_n++;
              samples += std::string(samples.empty() ? "" : ",") + "{\"seed\":" + std::to_string(r.seed) + ",\"case\":\"" + jesc(ctl->desc) + "\",\"incarnations\":" + std::to_string(o.n_inc) + ",\"operations\":" + std::to_string(ctl->work) + ",\"scheduling_points\":" + std::to_string(sh->sync_steps) + ",\"preemptions\":" + std::to_string(sh->preempts) + ",\"injected\":[";
              for (int k = 0, n = 0; k < sh->n_fault && n < 6; ++k, ++n) samples += std::string(n ? "," : "") + "\"" + faultName(sh->fault[k].kind) + "@inc" + std::to_string(sh->fault[k].inc) + "/thread" + std::to_string(sh->fault[k].fid) + "/io" + std::to_string(sh->fault[k].at) + "\"";
              samples += "],\"first_switches\":[";
              for (int k = 0, n = 0; k < sh->n_sched && n < 6; ++k, ++n) samples += std::string(n ? "," : "") + "\"inc" + std::to_string(sh->sched[k].inc_fid >> 16) + "/thread" + std::to_string(sh->sched[k].inc_fid & 0xffff) + "@" + std::to_string(sh->sched[k].at) + "->" + std::to_string(sh->sched[k].pick) + "\"";
              samples += "],\"history_hash\":\"" + std::to_string(o.hash) + "\"}"; } }
        if (sh->sched_overflow || sh->fault_overflow) overflow++;
        bool dc = detcheck || (i % 64) == 3;
        if (o.status == RS_OK && dc) {
            uint64_t h = o.hash; Replay ex = r; ex.explicit_mode = ((i % 128) == 3 || (detcheck && (i & 1)) || (detcheck && one)) && !sh->sched_overflow && !sh->fault_overflow;
            if (ex.explicit_mode) { ex.sched.assign(sh->sched, sh->sched + sh->n_sched); ex.fault.assign(sh->fault, sh->fault + sh->n_fault); sort_sched(ex.sched); }
            Outcome o2 = execute(ex); det_checked++;
            if (o2.status != RS_OK || o2.hash != h) { det_bad++; errmsg = "nondeterminism at seed " + std::to_string(r.seed) + (ex.explicit_mode ? " (explicit)" : "") + " status " + std::to_string(o2.status) + " " + o2.kind + " " + o2.msg; }
        }
        if (o.status == RS_ERROR || o.status == RS_NONE) { errors++; errmsg = "seed " + std::to_string(r.seed) + ": " + o.msg; if (one) break; continue; }
        if (o.status == RS_VIOLATION) {
            bool iskn = false;
            for (auto& k : known) if (k.prop == prop && k.kind == o.kind && core_msg(o.msg).find(k.match) != std::string::npos) { k.hits++; iskn = true; break; }
            if (iskn) { if (one) break; continue; }
            viols++;
            Replay ex = r; ex.explicit_mode = true; ex.kind = o.kind; ex.msg = o.msg; ex.hash = o.hash;
            ex.sched.assign(sh->sched, sh->sched + sh->n_sched); ex.fault.assign(sh->fault, sh->fault + sh->n_fault); sort_sched(ex.sched);
            bool ovf = sh->sched_overflow || sh->fault_overflow;
            size_t s0 = ex.sched.size(), f0 = ex.fault.size();
            // gate 1: the seed reproduces
            Replay sd = r; Outcome o2 = execute(sd);
            bool g1 = o2.status == RS_VIOLATION && o2.kind == o.kind && o2.hash == o.hash && o2.msg == o.msg;
            bool g2 = false; Outcome o3; o3.hash = 0;
            if (!ovf) { o3 = execute(ex); g2 = o3.status == RS_VIOLATION && o3.kind == o.kind && core_msg(o3.msg) == core_msg(o.msg); }
            Replay fin = g2 ? ex : r; fin.kind = o.kind; fin.msg = o.msg; fin.hash = o.hash;
            uint64_t items0 = ctl->work; int tries = 0;
            if (!g1) { errors++; errmsg = "violation at seed " + std::to_string(r.seed) + " did not reproduce: " + o.kind + " " + o.msg; continue; }
            if (g2 && !nomini && !keep) {
                Mini m; m.deadline = wall_now() + minisecs; m.kind = o.kind;
                // 1: faults, 2: schedule, 3: program items, 4: schedule again
                Replay cand = ex;
                auto tsched = [&](const std::vector<Sched>& c) { Replay t = cand; t.sched = c; bool b = still(t, m); return b; };
                { Replay t = cand; t.sched.clear(); if (still(t, m)) cand = t; }
                { std::vector<Fault> v = cand.fault; ddmin(v, m, [&](const std::vector<Fault>& c) { Replay t = cand; t.fault = c; return still(t, m); }); cand.fault = v; }
                double half = wall_now() + (m.deadline - wall_now()) * 0.5; double dl = m.deadline; m.deadline = half;
                { std::vector<Sched> v = cand.sched; ddmin(v, m, tsched); cand.sched = v; }
                m.deadline = dl;
                // items: world publishes its item ids through ctl->note via the history; use a coarse 2-level scheme
                std::vector<uint64_t> items; for (uint32_t g = 0; g < 64; ++g) for (uint32_t k = 0; k < 96; ++k) items.push_back(((uint64_t)g << 32) | k);
                { std::vector<uint64_t> v = items; 
                  auto tr = [&](const std::vector<uint64_t>& c) { Replay t = cand; t.mask.clear(); std::vector<uint64_t> a = items, b = c; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(t.mask)); return still(t, m); };
                  ddmin(v, m, tr);
                  std::set_difference(items.begin(), items.end(), v.begin(), v.end(), std::back_inserter(cand.mask)); }
                { std::vector<Sched> v = cand.sched; ddmin(v, m, tsched); cand.sched = v; }
                Outcome of = execute(cand); tries = m.tries;
                if (of.status == RS_VIOLATION && of.kind == m.kind) { cand.kind = of.kind; cand.msg = of.msg; cand.hash = of.hash; fin = cand; items0 = ctl->work; }
            }
            write_replay(rout, fin);
            vlines += std::string(vlines.empty() ? "" : ",") + "{\"seed\":" + std::to_string(r.seed) + ",\"kind\":\"" + jesc(fin.kind) + "\",\"msg\":\"" + jesc(fin.msg) + "\",\"replay\":\"" + jesc(rout) + "\",\"sched\":" + std::to_string(fin.sched.size()) + ",\"sched0\":" + std::to_string(s0) + ",\"faults\":" + std::to_string(fin.fault.size()) + ",\"faults0\":" + std::to_string(f0) + ",\"ops\":" + std::to_string(items0) + ",\"tries\":" + std::to_string(tries) + ",\"explicit\":" + (fin.explicit_mode ? "true" : "false") + "}";
            if (!keep) break;
        }
        if (one) break;
    }
    std::sort(schedset.begin(), schedset.end()); schedset.erase(std::unique(schedset.begin(), schedset.end()), schedset.end());
    if (hout) { FILE* f = __real_fopen(hout, "w"); if (f) { __real_fwrite(schedset.data(), 8, schedset.size(), f); __real_fclose(f); } }
    uint64_t sw = 0; for (size_t k = 0; k < sizeof swall; ++k) sw += __builtin_popcount(swall[k]);
    std::string s = "{"; auto kv = [&](const char* k, uint64_t v) { s += std::string(s.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
    kv("runs", runs); kv("incarnations", incs); kv("errors", errors); kv("violations", viols); kv("det_checked", det_checked); kv("det_bad", det_bad); kv("overflow", overflow);
    kv("sync_steps", sync_steps); kv("mem_steps", mem_steps); kv("switches", switches); kv("preempts", preempts); kv("io_ops", io_ops); kv("sim_ms", sim_ns / 1000000); kv("work", work); kv("distinct", schedset.size()); kv("switch_pairs", sw); kv("wall_ms", (uint64_t)((wall_now() - t0) * 1000));
    s += ",\"faults\":{"; bool first = true; for (int k = 1; k < FK_MAX; ++k) if (fcnt[k]) { s += std::string(first ? "" : ",") + "\"" + faultName(k) + "\":[" + std::to_string(fcnt[k]) + "," + std::to_string(runs_with_fault[k]) + "]"; first = false; }
    s += "},\"probes\":{"; first = true; for (int k = 0; k < probe_count(); ++k) { s += std::string(first ? "" : ",") + "\"" + probe_name(k) + "\":" + std::to_string(sh->probe[k]); first = false; }
    s += "},\"known\":["; for (size_t k = 0; k < known.size(); ++k) s += std::string(k ? "," : "") + std::to_string(known[k].hits);
    s += "],\"errmsg\":\"" + jesc(errmsg) + "\",\"swmap\":\""; if (out) { static const char* hx = "0123456789abcdef"; for (size_t k = 0; k < sizeof swall; ++k) { s += hx[swall[k] >> 4]; s += hx[swall[k] & 15]; } }
    s += "\",\"samples\":[" + samples + "],\"vio\":[" + vlines + "]}\n";
    if (out) { FILE* f = __real_fopen(out, "w"); if (f) { __real_fwrite(s.data(), 1, s.size(), f); __real_fclose(f); } }
    else syscall(SYS_write, 1, s.data(), s.size());
    _exit(viols ? 1 : errors || det_bad ? 2 : 0);
}
