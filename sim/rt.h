// Deterministic simulator: runtime core interface.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>

namespace sim {

// ---------------------------------------------------------------- PRNG
static inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0xff51afd7ed558ccdULL)); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    bool onein(int n) { return below(n) == 0; }
    template <typename T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

// ---------------------------------------------------------------- limits
enum { MAXFIB = 96, MAXSCHED = 400000, MAXFAULT = 20000, MAXPROBE = 192 };

enum PointKind : uint8_t {
    PK_MEM = 0, PK_ATOMIC, PK_LOCK, PK_UNLOCK, PK_COND, PK_SIGNAL, PK_SLEEP, PK_YIELD, PK_CREATE,
    PK_JOIN, PK_EXIT, PK_IO, PK_GUARD, PK_USER, PK_BLOCK
};

enum FaultKind : uint8_t {
    FK_NONE = 0, FK_EIO, FK_ENOSPC, FK_SHORT, FK_EINTR, FK_FSYNC_KEEP, FK_FSYNC_DROP,
    FK_OPENFAIL, FK_SLOW, FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_CRASH_STEP, FK_CLOCKJUMP, FK_SPURIOUS,
    FK_ALLOC, FK_STALL, FK_MAX
};
const char* faultName(int k);

// One recorded scheduling decision.
struct Sched { uint32_t inc_fid; uint32_t type; uint64_t at; int32_t pick; int32_t stall; };
// One recorded fault decision. key: (incarnation, fiber, per-fiber I/O index).
struct Fault { uint16_t inc; uint16_t fid; uint32_t kind; uint64_t at; uint64_t arg; uint64_t arg2; };

enum RunStatus { RS_NONE = 0, RS_OK, RS_VIOLATION, RS_CRASHED, RS_ERROR, RS_RUNNING, RS_CUT };

struct SchedCfg {
    int mode;             // 0 = no preemption (round robin at blocking), 1 = random, 2 = PCT, 3 = explicit
    double p_sync;        // preempt probability at a synchronisation point
    double p_mem;         // preempt probability at a plain memory access
    double p_stall;       // given a preemption: stall the preempted fiber
    uint64_t max_stall;   // in synchronisation steps
    double p_tstall;      // given a preemption: stall for simulated time
    int pct_points;
    uint64_t pct_len;
    uint64_t quantum;     // forced switch after this many points
    uint64_t max_sync;    // progress bound
    uint64_t max_mem;
    uint64_t max_ns;
    uint64_t tick_ns;
    double p_spurious;    // spurious wake-ups
};

// Fault plan used in search mode. Classes are bit masks over file kinds.
enum FileClass : uint32_t {
    FC_LOG = 1, FC_LOGMANI = 2, FC_TABLEMANI = 4, FC_TABLE = 8, FC_DBMANI = 16, FC_LOGGER = 32,
    FC_OTHER = 64, FC_BACKUP = 128, FC_ALL = 255
};
struct FaultRule {
    uint32_t classes; uint32_t ops;   // op mask: see IoOp
    uint8_t kind; double p; uint64_t from, to; // window over the global I/O index of the incarnation
    uint64_t max_hits;
    uint64_t hits;
};
enum IoOp : uint32_t {
    IO_OPEN = 1, IO_READ = 2, IO_WRITE = 4, IO_FSYNC = 8, IO_TRUNC = 16, IO_UNLINK = 32,
    IO_RENAME = 64, IO_MKDIR = 128, IO_CLOSE = 256, IO_STAT = 512, IO_DIR = 1024
};
enum { MAXRULE = 12 };
struct FaultCfg {
    bool explicit_mode;
    int nrules;
    FaultRule rules[MAXRULE];
    uint64_t crash_io;       // crash at this global I/O index of the incarnation (0 = never)
    bool crash_after;
    uint64_t crash_step;     // crash at this global sync step (0 = never)
    uint64_t lat_base_ns;    // I/O latency scale
    uint64_t lat_spread_ns;
    double p_slow; uint64_t slow_ns;
    // crash disk behaviour
    int torn_mode;           // 0 drop all, 1 keep all, 2 random sectors, 3 random per file, 4 prefix per file
    bool meta_prefix;        // directory operations since the last fsync may be lost (suffix)
};

struct Shared {
    // ---- control (set by the driver process before each incarnation)
    uint64_t seed;
    char world[32];
    int incarnation;
    SchedCfg sc;
    FaultCfg fc;
    int n_exp_sched, n_exp_fault;
    Sched* exp_sched; Fault* exp_fault;   // explicit lists (in shared memory)
    // ---- results
    int status;
    char vio_kind[48];
    char vio_msg[3000];
    uint64_t hash;
    uint64_t sched_hash;
    uint64_t sync_steps, mem_steps, switches, preempts, io_ops, sim_ns, base_ns;
    int64_t wall_skew_ns;
    uint64_t fault_cnt[FK_MAX];
    uint64_t probe[MAXPROBE];
    // ---- traces
    int n_sched, n_fault; bool sched_overflow, fault_overflow;
    Sched sched[MAXSCHED];
    Fault fault[MAXFAULT];
    uint8_t swmap[65536 / 8];   // hashed (from pc, to pc) context switch pairs
};
extern Shared* sh;

// ---------------------------------------------------------------- services
void rt_init();                        // once per process
void child_start();                    // once per incarnation, in the forked child
[[noreturn]] void run_main(void (*fn)());        // becomes fiber 0, never returns
[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void crash_now(const char* why);
void finish_ok() __attribute__((noreturn));
void dbg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern int verbose;

uint64_t now_ns();
uint64_t stamp();                      // strictly increasing event stamp
int self_id();
const char* self_name();
void set_name(const char* n);
void point(PointKind k);
void hash_event(uint64_t v);
void sleep_ns(uint64_t ns);
uint64_t sync_steps();
void set_faults_enabled(bool on);
void set_preempt_enabled(bool on);     // whole run
bool faults_enabled();
int live_fibers();                     // number of unfinished fibers, including the caller
void set_fiber_ordinary_priority();
void request_crash();                  // crash at the next point of any fiber
void jump_wall_clock(int64_t ns);
void* raw_mmap_shared(size_t bytes);
void mem_range_check(const void* p, size_t n, bool write);   // heap bounds / liveness

struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// probes: reach counters, by registered name
int probe_id(const char* name);
void probe_hit(int id, uint64_t n = 1);
const char* probe_name(int id);
int probe_count();
#define SIM_PROBE(name) do { static int _pid = -1; if (_pid < 0) _pid = sim::probe_id(name); sim::probe_hit(_pid); } while (0)

// io hook for vfs.cc
struct IoDecision { uint8_t kind; uint64_t arg; };
IoDecision io_enter(uint32_t op, uint32_t cls, uint64_t size);
void io_leave(uint32_t op);            // may crash "after"

// explicit "fault" choices made by the world (kept in the fault trace too)
} // namespace sim
