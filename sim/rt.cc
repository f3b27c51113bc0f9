// Deterministic simulator: fibers, scheduler, synchronisation, clock, heap,
// and the __tsan_* runtime the instrumented Jungle objects call into.
// This file is compiled without instrumentation and uses no STL.
#include "rt.h"
#include <initializer_list>
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
extern "C" char __libc_single_threaded;

namespace sim {

Shared* sh = nullptr;
int verbose = 0;
void vfs_crash_transform();

// =====================================================================
// fibers
enum FState { FS_FREE = 0, FS_RUN, FS_MUTEX, FS_COND, FS_SLEEP, FS_JOIN, FS_GUARD, FS_DONE };
struct Dtor { void (*fn)(void*); void* obj; };
struct Fiber {
    int id, state;
    void* sp;
    void* waddr;
    uint64_t deadline;       // 0 = none
    bool timed_out;
    uint64_t fstep, next_at, quantum_end, mem_next;
    uint64_t fio, fblock, fsig;
    int64_t prio;
    uint64_t y_last, y_cnt;  // busy-waiting: last yield and number of yields in a row
    uint64_t stall_until;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined, tstalled;
    int nopre;
    int ssp;
    int saved_errno;
    uint64_t eh[2];
    int ndtor;
    uint64_t crash_at;
    int xs_cur, xs_end, xb_cur, xb_end, xg_cur, xg_end; // explicit lists
    uintptr_t last_pc;
    char name[20];
    void* tls[64];
    Dtor dtors[64];
    uintptr_t ss[256];
};
static Fiber fibs[MAXFIB];
static int nfib = 0;
static Fiber* cur = nullptr;
static bool active = false;      // scheduler running
static bool preempt_on = true;
static bool faults_on = true;
static bool crash_req = false;
static uint64_t gsync = 0, gmem_dummy = 0, gio = 0, gpoints = 0;
static uint64_t now = 0, next_deadline = ~0ull, stamps = 0;
static Rng rsched(1), rfault(2);
static uint64_t pct_change[64]; static int pct_n = 0, pct_i = 0; static int64_t pct_low = -1;
static const size_t STACK = 512 * 1024;
static char* const STACKS = (char*)0x200000000000ull;
static char sigstk[65536];

static inline void hmix(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x9fb21c651e98df25ULL; sh->hash ^= sh->hash >> 29; }
void hash_event(uint64_t v) { hmix(v); }

static const char* fk_names[FK_MAX] = { "none", "eio", "enospc", "short", "eintr", "fsync_fail_keep",
    "fsync_fail_drop", "open_fail", "slow_io", "crash_before_io", "crash_after_io", "crash_step",
    "clock_jump", "spurious_wakeup", "alloc_fail", "stall" };
const char* faultName(int k) { return k >= 0 && k < FK_MAX ? fk_names[k] : "?"; }

// ---------------------------------------------------------------- raw output
static void raw_write(int fd, const char* b, size_t n) {
    while (n) { long r = syscall(SYS_write, fd, b, n); if (r <= 0) return; b += r; n -= r; }
}
extern "C" void sim_dbg_log(const char* fmt, va_list ap) { if (!verbose) return; char b[1500]; vsnprintf(b, sizeof b, fmt, ap); dbg("LOG %s", b); }
void dbg(const char* fmt, ...) {
    if (!verbose) return;
    char b[2048]; int k = snprintf(b, sizeof b, "[%d.%d %s t=%llu.%06llu s=%llu] ", sh ? sh->incarnation : -1,
        cur ? cur->id : -1, cur ? cur->name : "", (unsigned long long)(now / 1000000000ull),
        (unsigned long long)(now % 1000000000ull / 1000), (unsigned long long)gsync);
    va_list ap; va_start(ap, fmt); k += vsnprintf(b + k, sizeof b - k - 2, fmt, ap); va_end(ap);
    if (k > (int)sizeof b - 2) k = sizeof b - 2;
    b[k++] = '\n'; raw_write(2, b, k);
}

static void save_stats() {
    sh->sync_steps += gsync; sh->io_ops += gio; sh->sim_ns += now - sh->base_ns;
    uint64_t m = 0; for (int i = 0; i < nfib; ++i) m += fibs[i].fstep;
    sh->mem_steps += m;
    sh->base_ns = now + 1000000;
}
static bool in_violation = false;
static void vio_common(int st, const char* kind, const char* fmt, va_list ap) {
    if (in_violation) syscall(SYS_exit_group, 9);
    in_violation = true;
    active = false;
    snprintf(sh->vio_kind, sizeof sh->vio_kind, "%s", kind);
    int k = vsnprintf(sh->vio_msg, sizeof sh->vio_msg - 1200, fmt, ap);
    if (k > (int)sizeof sh->vio_msg - 1200) k = sizeof sh->vio_msg - 1200;
    k += snprintf(sh->vio_msg + k, 64, " | fiber %d %s stack:", cur ? cur->id : -1, cur ? cur->name : "");
    if (cur) for (int i = cur->ssp - 1, n = 0; i >= 0 && n < 14; --i, ++n)
        if (i < 256) k += snprintf(sh->vio_msg + k, 40, " 0x%llx", (unsigned long long)cur->ss[i]);
    if (!strcmp(kind, "deadlock") || !strcmp(kind, "no-progress")) {
        for (int f = 0; f < nfib && k < (int)sizeof(sh->vio_msg) - 220; ++f) {
            Fiber& x = fibs[f]; if (x.state == FS_DONE || x.state == FS_FREE) continue;
            k += snprintf(sh->vio_msg + k, 120, " | f%d %s st%d:", f, x.name, x.state);
            for (int i = x.ssp - 1, n = 0; i >= 0 && n < 5; --i, ++n)
                if (i < 256) k += snprintf(sh->vio_msg + k, 40, " 0x%llx", (unsigned long long)x.ss[i]);
        }
    }
    save_stats();
    sh->status = st;
    if (verbose) { raw_write(2, sh->vio_kind, strlen(sh->vio_kind)); raw_write(2, ": ", 2);
        raw_write(2, sh->vio_msg, strlen(sh->vio_msg)); raw_write(2, "\n", 1); }
    syscall(SYS_exit_group, st == RS_VIOLATION ? 3 : 5);
    __builtin_unreachable();
}
void violation(const char* kind, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vio_common(RS_VIOLATION, kind, fmt, ap); __builtin_unreachable();
}
void harness_error(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vio_common(RS_ERROR, "harness", fmt, ap); __builtin_unreachable();
}
void finish_ok() {
    active = false; save_stats(); sh->status = RS_OK; syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void crash_now(const char* why) {
    dbg("CRASH: %s", why);
    active = false; vfs_crash_transform(); save_stats(); sh->status = RS_CRASHED;
    syscall(SYS_exit_group, 4); __builtin_unreachable();
}

// =====================================================================
// heap
static char* const ARENA = (char*)0x100000000000ull;
static const uint64_t ARENA_SZ = 1ull << 31;
static uint8_t* const SHADOW = (uint8_t*)0x180000000000ull;
static bool arena_up = false;
static uint64_t bump = 64;
enum { HDR = 32, NCLS = 512 };
struct Hdr { uint32_t magic; uint32_t id; uint64_t size; uint32_t pre; uint32_t cls; uint32_t fid; uint32_t blk; };
enum : uint32_t { M_LIVE = 0xA110CA7E, M_FREE = 0xF4EED0DE };
struct FreeNode { FreeNode* next; uint64_t blksz; };
static FreeNode* freel[NCLS];
static FreeNode* freebig = nullptr;
static uint32_t alloc_id = 0;
static uint64_t live_bytes = 0, live_count = 0;
enum { QN = 8192 };
static Hdr* quar[QN]; static uint32_t qhead = 0, qn = 0; static uint64_t qbytes = 0;

static void arena_init() {
    arena_up = true;
    void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void* s = mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a != ARENA || s != SHADOW) { raw_write(2, "arena mmap failed\n", 18); syscall(SYS_exit_group, 7); }
}
static inline void shadow_set(uint64_t off, uint64_t n, uint8_t v) { memset(SHADOW + off / 8, v, n / 8); }

[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, uint8_t s) {
    uint64_t off = a - (uintptr_t)ARENA;
    const char* k = s == 0xFD ? "heap-use-after-free" : "heap-out-of-bounds";
    // find the owning header by scanning back
    uint64_t p = off & ~15ull; uint32_t id = 0; uint64_t size = 0; int64_t rel = 0;
    for (uint64_t i = 0; i < 65536 && p >= 64; ++i, p -= 16) {
        Hdr* h = (Hdr*)(ARENA + p);
        if ((h->magic == M_LIVE || h->magic == M_FREE) && h->pre < 65536) {
            id = h->id; size = h->size; rel = (int64_t)off - (int64_t)(p + HDR); break; }
    }
    violation(k, "%s of %zu bytes at heap object #%u (size %llu) offset %lld", w ? "write" : "read", n,
              id, (unsigned long long)size, (long long)rel);
}
static inline bool shadow_bad(uint64_t off, size_t n) {
    // n <= 16 in practice for scalar accesses
    uint64_t e = off + n - 1;
    uint8_t s1 = SHADOW[off >> 3], s2 = SHADOW[e >> 3];
    if (!(s1 | s2)) return false;
    if (s1 >= 0x80 || s2 >= 0x80) return true;
    if (s2 && (e & 7) >= s2) return true;
    if (s1 && (off >> 3) != (e >> 3)) return true;
    return false;
}
static inline void mcheck(uintptr_t a, size_t n, bool w) {
    uint64_t off = a - (uintptr_t)ARENA;
    if (__builtin_expect(off < ARENA_SZ, 1)) {
        if (__builtin_expect(shadow_bad(off, n), 0) && active)
            { uint8_t s = SHADOW[off >> 3]; if (s < 0x80) s = SHADOW[(off + n - 1) >> 3]; bad_access(a, n, w, s); }
    } else if (__builtin_expect(a < 65536, 0) && active) {
        violation("null-deref", "%s of %zu bytes at address 0x%llx", w ? "write" : "read", n, (unsigned long long)a);
    }
}
static void mcheck_range(uintptr_t a, size_t n, bool w) {
    if (!n || !active) return;
    uint64_t off = a - (uintptr_t)ARENA;
    if (off >= ARENA_SZ) { if (a < 65536) violation("null-deref", "range %s of %zu bytes at 0x%llx", w ? "write" : "read", n, (unsigned long long)a); return; }
    uint64_t e = off + n;
    while (off < e) {
        size_t k = 8 - (off & 7); if (k > e - off) k = e - off;
        uint8_t s = SHADOW[off >> 3];
        if (s && (s >= 0x80 || ((off + k - 1) & 7) >= s))
            bad_access((uintptr_t)ARENA + off, n, w, s);
        off += k;
        if (!(off & 7)) while (off + 64 <= e && *(uint64_t*)(SHADOW + (off >> 3)) == 0 && !((off >> 3) & 7)) off += 64;
    }
}
void mem_range_check(const void* p, size_t n, bool w) { if (active) mcheck_range((uintptr_t)p, n, w); }
static void* do_alloc(size_t size, size_t align) {
    if (!arena_up) arena_init();
    if (size > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    if (verbose > 1 && size > 500000) dbg("big alloc %zu (ssp pc 0x%llx)", size, cur && cur->ssp > 0 && cur->ssp < 256 ? (unsigned long long)cur->ss[cur->ssp-1] : 0ull);
    if (align < 16) align = 16;
    uint64_t need = HDR + ((size + 15) & ~15ull) + 16 + (align > 16 ? align : 0);
    need = (need + 15) & ~15ull;
    uint64_t blk; char* base = nullptr;
    if (need / 16 < NCLS) {
        blk = need; FreeNode*& l = freel[need / 16];
        if (l) { base = (char*)l; l = l->next; }
    } else {
        blk = (need + 4095) & ~4095ull;
        FreeNode** pp = &freebig;
        while (*pp) { if ((*pp)->blksz == blk) { base = (char*)*pp; *pp = (*pp)->next; break; } pp = &(*pp)->next; }
    }
    if (!base) {
        if (bump + blk + 64 > ARENA_SZ) { errno = ENOMEM; return nullptr; }
        base = ARENA + bump; bump += blk;
    }
    uint64_t boff = base - ARENA;
    uint64_t uoff = boff + HDR; uoff = (uoff + align - 1) & ~(uint64_t)(align - 1);
    Hdr* h = (Hdr*)(ARENA + uoff - HDR);
    shadow_set(boff, blk, 0xFA);
    h->magic = M_LIVE; h->id = ++alloc_id; h->size = size; h->pre = (uint32_t)(uoff - HDR - boff);
    h->cls = 0; h->fid = cur ? cur->id : 0; h->blk = (uint32_t)(blk / 16);
    shadow_set(uoff, size & ~7ull, 0);
    if (size & 7) SHADOW[(uoff + size) >> 3] = size & 7;
    live_bytes += size; live_count++;
    return ARENA + uoff;
}
static void release_blk(Hdr* h) {
    char* base = (char*)h - h->pre; uint64_t blk = (uint64_t)h->blk * 16;
    h->magic = 0;
    FreeNode* f = (FreeNode*)base; f->blksz = blk;
    if (blk / 16 < NCLS) { f->next = freel[blk / 16]; freel[blk / 16] = f; }
    else { f->next = freebig; freebig = f; }
}
static Hdr* hdr_of(void* p, const char* what) {
    uint64_t off = (char*)p - ARENA;
    if (off >= ARENA_SZ || off < 64) { if (active) violation("bad-free", "%s of non-heap pointer %p", what, p); return nullptr; }
    Hdr* h = (Hdr*)((char*)p - HDR);
    if (h->magic == M_FREE) { if (active) violation("double-free", "%s of freed object #%u size %llu", what, h->id, (unsigned long long)h->size); return nullptr; }
    if (h->magic != M_LIVE) { if (active) violation("bad-free", "%s of wild pointer %p", what, p); return nullptr; }
    return h;
}
static void do_free(void* p) {
    if (!p) return;
    Hdr* h = hdr_of(p, "free"); if (!h) return;
    h->magic = M_FREE; live_bytes -= h->size; live_count--;
    uint64_t off = (char*)p - ARENA;
    shadow_set(off, (h->size + 7) & ~7ull, 0xFD);
    memset(p, 0xDD, h->size < 512 ? h->size : 512);
    if (qn == QN || qbytes > (24u << 20)) {
        while (qn && (qn == QN || qbytes > (24u << 20))) {
            Hdr* o = quar[qhead]; qhead = (qhead + 1) % QN; qn--; qbytes -= o->size; release_blk(o); }
    }
    quar[(qhead + qn) % QN] = h; qn++; qbytes += h->size;
}

extern "C" {
void* __wrap_malloc(size_t n) { void* p = do_alloc(n, 16); if (p) memset(p, 0xBE, n < 256 ? n : 256); return p; }
void __wrap_free(void* p) { do_free(p); }
void* __wrap_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = do_alloc(n, 16); if (p) memset(p, 0, n); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!n) { do_free(p); return nullptr; }
    Hdr* h = hdr_of(p, "realloc"); if (!h) return nullptr;
    void* q = do_alloc(n, 16); if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n); do_free(p); return q;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = do_alloc(n, al); if (!p) return ENOMEM; memset(p, 0xBE, n < 256 ? n : 256); *out = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
void* __wrap_memalign(size_t al, size_t n) { return do_alloc(n, al); }
size_t __wrap_malloc_usable_size(void* p) { if (!p) return 0; return ((Hdr*)((char*)p - HDR))->size; }
}

// =====================================================================
// context switch
extern "C" void sim_swap(void** save, void* to);
extern "C" void sim_tramp();
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
    xorl %ebp, %ebp
    call sim_fiber_main
    hlt
)");

static void explicit_ranges(Fiber* f);
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
    int id = -1;
    if (nfib < MAXFIB) id = nfib++;
    else { // reuse a finished, joined/detached fiber
        for (int i = 1; i < MAXFIB; ++i) if (fibs[i].state == FS_DONE && (fibs[i].detached || fibs[i].joined) && &fibs[i] != cur) { id = i; break; }
    }
    if (id < 0) return nullptr;
    Fiber* f = &fibs[id];
    uint64_t keep_fstep = f->fstep, keep_fio = f->fio, keep_fb = f->fblock, keep_fs = f->fsig;
    memset(f, 0, sizeof *f);
    f->fstep = keep_fstep; f->fio = keep_fio; f->fblock = keep_fb; f->fsig = keep_fs;
    f->id = id; f->fn = fn; f->arg = arg; f->state = FS_RUN;
    snprintf(f->name, sizeof f->name, "t%d", id);
    char* top = STACKS + (size_t)id * STACK + STACK - 64;
    uint64_t* s = (uint64_t*)((uintptr_t)top & ~63ull);
    *--s = 0; *--s = 0; // keep 16-byte alignment at the call in sim_tramp
    *--s = (uint64_t)sim_tramp;
    for (int i = 0; i < 6; ++i) *--s = 0;
    --s; ((uint32_t*)s)[0] = 0x1f80; ((uint32_t*)s)[1] = 0x037f;
    f->sp = s;
    f->prio = sh->sc.mode == 2 ? (int64_t)(rsched.next() >> 40) + 1 : 0;
    f->mem_next = ~0ull; f->next_at = 0; f->crash_at = ~0ull;
    explicit_ranges(f);
    return f;
}

// ---------------------------------------------------------------- scheduling
static void explicit_ranges(Fiber* f) {
    f->xs_cur = f->xs_end = f->xb_cur = f->xb_end = f->xg_cur = f->xg_end = 0;
    if (sh->sc.mode == 3) {
        uint32_t key = ((uint32_t)sh->incarnation << 16) | (uint32_t)f->id;
        int n = sh->n_exp_sched; Sched* e = sh->exp_sched;
        auto find = [&](uint32_t type, int& b, int& en) {
            int i = 0;
            // list is sorted by (inc_fid, type, at)
            int lo = 0, hi = n;
            while (lo < hi) { int m = (lo + hi) / 2; if (e[m].inc_fid < key || (e[m].inc_fid == key && e[m].type < type)) lo = m + 1; else hi = m; }
            i = lo; b = i; while (i < n && e[i].inc_fid == key && e[i].type == type) ++i; en = i;
        };
        find(0, f->xs_cur, f->xs_end); find(1, f->xb_cur, f->xb_end); find(2, f->xg_cur, f->xg_end);
        while (f->xs_cur < f->xs_end && sh->exp_sched[f->xs_cur].at <= f->fstep) f->xs_cur++;
    }
    if (sh->fc.explicit_mode)
        for (int i = 0; i < sh->n_exp_fault; ++i) {
            Fault& x = sh->exp_fault[i];
            if (x.inc == sh->incarnation && x.fid == f->id && x.kind == FK_CRASH_STEP && x.at > f->fstep) { f->crash_at = x.at; break; }
        }
}
static void rec_sched(Fiber* f, uint32_t type, uint64_t at, int pick, int stall) {
    sh->sched_hash = mix2(sh->sched_hash, ((uint64_t)f->id << 32) ^ at ^ ((uint64_t)pick << 48));
    if (sh->n_sched >= MAXSCHED) { sh->sched_overflow = true; return; }
    Sched& s = sh->sched[sh->n_sched++];
    s.inc_fid = ((uint32_t)sh->incarnation << 16) | (uint32_t)f->id; s.type = type; s.at = at; s.pick = pick; s.stall = stall;
}
static void rec_fault(Fiber* f, uint32_t kind, uint64_t at, uint64_t arg, uint64_t arg2 = 0) {
    sh->fault_cnt[kind]++;
    if (sh->n_fault >= MAXFAULT) { sh->fault_overflow = true; return; }
    Fault& x = sh->fault[sh->n_fault++];
    x.inc = sh->incarnation; x.fid = f ? f->id : 0; x.kind = kind; x.at = at; x.arg = arg; x.arg2 = arg2;
}

static void compute_next_at(Fiber* f) {
    uint64_t n = f->quantum_end;
    if (sh->sc.mode == 1 && f->mem_next < n) n = f->mem_next;
    else if (sh->sc.mode == 3 && f->xs_cur < f->xs_end && sh->exp_sched[f->xs_cur].at < n) n = sh->exp_sched[f->xs_cur].at;
    else if (sh->sc.mode == 2 && pct_i < pct_n) {
        uint64_t left = pct_change[pct_i] > gpoints ? pct_change[pct_i] - gpoints : 1;
        if (f->fstep + left < n) n = f->fstep + left;
    }
    if (f->crash_at < n) n = f->crash_at;
    f->next_at = n;
}
static void draw_mem(Fiber* f) {
    if (sh->sc.mode == 1 && sh->sc.p_mem > 0) {
        double u = ((rsched.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
        double g = log(u) / log1p(-sh->sc.p_mem);
        f->mem_next = f->fstep + 1 + (g > 1e15 ? (uint64_t)1e15 : (uint64_t)g);
    } else f->mem_next = ~0ull;
}
static void switched_in(Fiber* f) {
    // the quantum is charged across switches, so that a spinning thread cannot starve the others for ever
    if (f->quantum_end <= f->fstep) f->quantum_end = f->fstep + sh->sc.quantum;
    if (f->mem_next == ~0ull || f->mem_next <= f->fstep) draw_mem(f);
    compute_next_at(f);
}

static uint64_t points_base = 0;
static void switch_to(Fiber* f) {
    if (f == cur) { switched_in(f); return; }
    Fiber* o = cur;
    sh->switches++;
    hmix(0x5157ull ^ ((uint64_t)o->id << 20) ^ ((uint64_t)f->id << 40) ^ o->fstep);
    uintptr_t pa = o->ssp > 0 && o->ssp <= 256 ? o->ss[o->ssp - 1] : 0, pb = f->ssp > 0 && f->ssp <= 256 ? f->ss[f->ssp - 1] : 0;
    uint64_t hh = mix2(pa, pb) & 65535; sh->swmap[hh >> 3] |= 1u << (hh & 7);
    o->saved_errno = errno;
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    o->eh[0] = g[0]; o->eh[1] = g[1];
    cur = f;
    g[0] = f->eh[0]; g[1] = f->eh[1];
    switched_in(f);
    if (verbose > 2) dbg("switch from %d", o->id);
    sim_swap(&o->sp, f->sp);
    // back in o
    errno = o->saved_errno;
}
static void wake_timers() {
    if (now < next_deadline) return;
    next_deadline = ~0ull;
    for (int i = 0; i < nfib; ++i) {
        Fiber& f = fibs[i];
        if (!f.deadline || f.state == FS_DONE || f.state == FS_RUN) continue;
        if (f.deadline <= now) { f.timed_out = true; f.state = FS_RUN; f.deadline = 0; f.tstalled = false; }
        else if (f.deadline < next_deadline) next_deadline = f.deadline;
    }
}
static void set_deadline(Fiber* f, uint64_t d) { f->deadline = d ? d : 1; if (f->deadline < next_deadline) next_deadline = f->deadline; }

static int runnable(Fiber** out, Fiber* excl) {
    int n = 0, st = 0; Fiber* ss[MAXFIB];
    for (int i = 0; i < nfib; ++i) {
        Fiber* f = &fibs[i];
        if (f->state != FS_RUN || f == excl) continue;
        if (f->stall_until > gsync) ss[st++] = f; else out[n++] = f;
    }
    if (!n && st && !excl) { // everyone runnable is stalled: release the one that would resume first
        Fiber* b = ss[0]; for (int i = 1; i < st; ++i) if (ss[i]->stall_until < b->stall_until) b = ss[i];
        b->stall_until = 0; out[n++] = b;
    }
    return n;
}
static uint64_t quanta = 0;
static void check_limits() {
    if (sh->sc.max_mem && quanta * sh->sc.quantum > sh->sc.max_mem) violation("no-progress", "run exceeded %llu memory accesses", (unsigned long long)sh->sc.max_mem);
    if (gsync > sh->sc.max_sync) violation("no-progress", "run exceeded %llu synchronisation steps", (unsigned long long)gsync);
    if (now - sh->base_ns > sh->sc.max_ns) violation("no-progress", "run exceeded %llu simulated seconds", (unsigned long long)((now - sh->base_ns) / 1000000000ull));
}
// current fiber cannot continue (blocked, sleeping or finished): choose another
static void schedule_blocked() {
    for (;;) {
        wake_timers();
        Fiber* r[MAXFIB]; int n = runnable(r, nullptr);
        if (!n) {
            if (next_deadline == ~0ull) {
                bool any = false; for (int i = 0; i < nfib; ++i) if (fibs[i].deadline && fibs[i].state != FS_DONE && fibs[i].state != FS_RUN) any = true;
                if (any) harness_error("timer bookkeeping");
                violation("deadlock", "all %d live threads are blocked with no timer pending", live_fibers());
            }
            if (next_deadline > now) now = next_deadline;
            check_limits();
            continue;
        }
        Fiber* o = cur; Fiber* p = nullptr; uint64_t at = ++o->fblock;
        int mode = sh->sc.mode;
        if (n == 1) p = r[0];
        else if (mode == 1) { p = r[rsched.below(n)]; rec_sched(o, 1, at, p->id, 0); }
        else if (mode == 2) { p = r[0]; for (int i = 1; i < n; ++i) if (r[i]->prio > p->prio) p = r[i]; rec_sched(o, 1, at, p->id, 0); }
        else {
            if (mode == 3) {
                while (o->xb_cur < o->xb_end && sh->exp_sched[o->xb_cur].at < at) o->xb_cur++;
                if (o->xb_cur < o->xb_end && sh->exp_sched[o->xb_cur].at == at) {
                    int want = sh->exp_sched[o->xb_cur].pick;
                    for (int i = 0; i < n; ++i) if (r[i]->id == want) p = r[i];
                }
            }
            if (!p) { p = r[0]; for (int i = 0; i < n; ++i) if (r[i]->id > o->id) { p = r[i]; break; } }
        }
        switch_to(p);
        return;
    }
}
// returns after possibly having run others
static void preempt_with(Fiber* target, int stall) {
    Fiber* o = cur;
    if (stall > 0) { o->stall_until = gsync + (uint64_t)stall; sh->fault_cnt[FK_STALL]++; }
    else if (stall < 0) { // simulated-time stall, unit: 100 us
        sh->fault_cnt[FK_STALL]++;
        o->state = FS_SLEEP; o->timed_out = false; o->tstalled = true; set_deadline(o, now + (uint64_t)(-(int64_t)stall) * 100000ull);
        if (!target) { schedule_blocked(); return; }
    }
    if (!target || target == o) return;
    sh->preempts++;
    switch_to(target);
}
static int choose_stall() {
    SchedCfg& c = sh->sc;
    if (c.p_stall > 0 && rsched.chance(c.p_stall)) return 1 + (int)rsched.below(c.max_stall);
    if (c.p_tstall > 0 && rsched.chance(c.p_tstall)) {
        int e = (int)rsched.below(14); return -(1 + (int)rsched.below(1u << e)); // up to ~0.8 s
    }
    return 0;
}
static Fiber* by_id(int id, Fiber** r, int n) { for (int i = 0; i < n; ++i) if (r[i]->id == id) return r[i]; return nullptr; }

static void maybe_preempt(bool sync, bool forced) {
    // called with cur->fstep already advanced for this point
    Fiber* o = cur; int mode = sh->sc.mode;
    bool quantum = o->fstep >= o->quantum_end;
    if (quantum) { o->quantum_end = o->fstep + sh->sc.quantum; quanta++; check_limits(); }
    Fiber* r[MAXFIB];
    if (mode == 1) {
        bool hit = forced || quantum;
        if (o->fstep >= o->mem_next) { hit = true; draw_mem(o); }
        if (!hit && sync && sh->sc.p_sync > 0 && rsched.chance(sh->sc.p_sync)) hit = true;
        if (hit) {
            int n = runnable(r, o);
            if (!n && forced) { // yielding among stalled fibers: release one
                Fiber* b = nullptr; for (int i = 0; i < nfib; ++i) if (&fibs[i] != o && fibs[i].state == FS_RUN && (!b || fibs[i].stall_until < b->stall_until)) b = &fibs[i];
                if (b) { b->stall_until = 0; r[n++] = b; }
            }
            if (n) { Fiber* t = r[rsched.below(n)]; int st = choose_stall(); rec_sched(o, 0, o->fstep, t->id, st); compute_next_at(o); preempt_with(t, st); return; }
            else if (!forced && !quantum) { int st = choose_stall(); if (st < 0) { rec_sched(o, 0, o->fstep, -1, st); compute_next_at(o); preempt_with(nullptr, st); return; } }
        }
    } else if (mode == 2) {
        bool change = false;
        while (pct_i < pct_n && pct_change[pct_i] <= gpoints) { pct_i++; change = true; }
        if (change || forced || quantum) o->prio = pct_low--;
        if (change || forced || quantum || sync) {
            int n = runnable(r, o); Fiber* b = nullptr;
            for (int i = 0; i < n; ++i) if (!b || r[i]->prio > b->prio) b = r[i];
            if (b && b->prio > o->prio) { rec_sched(o, 0, o->fstep, b->id, 0); compute_next_at(o); preempt_with(b, 0); return; }
        }
    } else if (mode == 3) {
        while (o->xs_cur < o->xs_end && sh->exp_sched[o->xs_cur].at < o->fstep) o->xs_cur++;
        if (o->xs_cur < o->xs_end && sh->exp_sched[o->xs_cur].at == o->fstep) {
            Sched s = sh->exp_sched[o->xs_cur++]; compute_next_at(o);
            int n = runnable(r, o); Fiber* t = s.pick >= 0 ? by_id(s.pick, r, n) : nullptr;
            if (!t && s.pick >= 0) { for (int i = 0; i < nfib; ++i) if (fibs[i].id == s.pick && fibs[i].state == FS_RUN && &fibs[i] != o) { t = &fibs[i]; t->stall_until = 0; } }
            if (!t && s.pick >= 0 && n) t = r[0];
            if (t || s.stall < 0) { preempt_with(t, s.stall); return; }
        } else if (forced || quantum) goto rr;
    } else if (forced || quantum) {
    rr:
        int n = runnable(r, o);
        if (n) { Fiber* t = r[0]; for (int i = 0; i < n; ++i) if (r[i]->id > o->id) { t = r[i]; break; } compute_next_at(o); preempt_with(t, 0); return; }
    }
    compute_next_at(o);
}
static void sync_tail(PointKind k) {
    if (crash_req) crash_now("requested");
    if (!sh->fc.explicit_mode) {
        if (sh->fc.crash_step && gsync == sh->fc.crash_step && faults_on) { rec_fault(cur, FK_CRASH_STEP, cur->fstep, 0); crash_now("step"); }
    }
    if ((gsync & 1023) == 0) check_limits();
}
static inline bool hooks_on() { return active && cur->nopre == 0; }

void point(PointKind k) {
    if (!active) return;
    gsync++; now += sh->sc.tick_ns;
    hmix(((uint64_t)k << 56) ^ ((uint64_t)cur->id << 48) ^ cur->fstep);
    if (now >= next_deadline) wake_timers();
    if (cur->nopre) { if ((gsync & 1023) == 0) check_limits(); return; }
    cur->fstep++; gpoints++;
    if (cur->fstep >= cur->crash_at && sh->fc.explicit_mode && faults_on) { rec_fault(cur, FK_CRASH_STEP, cur->fstep, 0); crash_now("step"); }
    sync_tail(k);
    if (!preempt_on) { if (k == PK_YIELD || cur->fstep >= cur->next_at) { Fiber* r[MAXFIB]; int n = runnable(r, cur); cur->quantum_end = cur->fstep + sh->sc.quantum; compute_next_at(cur);
            if (n) { Fiber* t = r[0]; for (int i = 0; i < n; ++i) if (r[i]->id > cur->id) { t = r[i]; break; } switch_to(t); } } return; }
    bool must = k == PK_YIELD;
    // cheap exit
    if (sh->sc.mode == 3 || sh->sc.mode == 0) { if (!must && cur->fstep < cur->next_at) return; }
    maybe_preempt(true, must);
}
static __attribute__((noinline)) void mem_slow() {
    if (!preempt_on) { if (cur->fstep >= cur->quantum_end) { quanta++;  Fiber* r[MAXFIB]; int n = runnable(r, cur); cur->quantum_end = cur->fstep + sh->sc.quantum; compute_next_at(cur);
            now += sh->sc.tick_ns; gsync++; wake_timers(); check_limits();
            if (n) { Fiber* t = r[0]; for (int i = 0; i < n; ++i) if (r[i]->id > cur->id) { t = r[i]; break; } switch_to(t); } }
        else cur->next_at = cur->quantum_end; return; }
    if (cur->fstep >= cur->crash_at && sh->fc.explicit_mode && faults_on) { rec_fault(cur, FK_CRASH_STEP, cur->fstep, 0); crash_now("step"); }
    if (cur->fstep >= cur->quantum_end) { now += sh->sc.tick_ns * 10; gsync++; wake_timers(); check_limits(); }
    maybe_preempt(false, false);
}
static inline void mem_point() {
    if (__builtin_expect(!active, 0) || cur->nopre) return;
    gpoints++;
    if (__builtin_expect(++cur->fstep >= cur->next_at, 0)) mem_slow();
}

static void block(int state, void* addr, uint64_t deadline) {
    if (!active) return;
    Fiber* f = cur;
    f->state = state; f->waddr = addr; f->timed_out = false; f->deadline = 0;
    if (deadline) set_deadline(f, deadline);
    schedule_blocked();
    f->waddr = nullptr; f->deadline = 0;
}
static void wake_all(int state, void* addr) {
    for (int i = 0; i < nfib; ++i) if (fibs[i].state == state && fibs[i].waddr == addr) { fibs[i].state = FS_RUN; fibs[i].deadline = 0; }
}

// ---------------------------------------------------------------- API
uint64_t now_ns() { return now; }
uint64_t stamp() { return ++stamps + (sh->incarnation + 1ull) * 1000000000000ull; }
int self_id() { return cur ? cur->id : -1; }
const char* self_name() { return cur ? cur->name : ""; }
void set_name(const char* n) { if (cur) snprintf(cur->name, sizeof cur->name, "%s", n); }
uint64_t sync_steps() { return gsync; }
void set_faults_enabled(bool on) { faults_on = on; }
void set_preempt_enabled(bool on) { preempt_on = on; }
bool faults_enabled() { return faults_on; }
void request_crash() { crash_req = true; }
int live_fibers() { int n = 0; for (int i = 0; i < nfib; ++i) if (fibs[i].state != FS_DONE && fibs[i].state != FS_FREE) ++n; return n; }
void jump_wall_clock(int64_t ns) { sh->wall_skew_ns += ns; }
NoPreempt::NoPreempt() { if (cur) cur->nopre++; }
NoPreempt::~NoPreempt() { if (cur) cur->nopre--; }
void sleep_ns(uint64_t ns) {
    if (!active) return;
    point(PK_SLEEP);
    block(FS_SLEEP, nullptr, now + (ns ? ns : 1));
}

static char probe_names_local[1];
struct ProbeTab { int n; char name[MAXPROBE][40]; };
static ProbeTab* ptab = nullptr;
int probe_id(const char* name) {
    for (int i = 0; i < ptab->n; ++i) if (!strcmp(ptab->name[i], name)) return i;
    if (ptab->n >= MAXPROBE) return MAXPROBE - 1;
    snprintf(ptab->name[ptab->n], 40, "%s", name); return ptab->n++;
}
void probe_hit(int id, uint64_t n) { sh->probe[id] += n; }
const char* probe_name(int id) { return ptab->name[id]; }
int probe_count() { return ptab->n; }

// ---------------------------------------------------------------- I/O hook
static uint64_t io_pending_after = 0;
IoDecision io_enter(uint32_t op, uint32_t cls, uint64_t size) {
    IoDecision d = { FK_NONE, 0 };
    if (!active) return d;
    Fiber* f = cur;
    uint64_t idx = ++f->fio; ++gio;
    FaultCfg& c = sh->fc;
    uint64_t h = mix2(mix2(sh->seed, ((uint64_t)sh->incarnation << 32) | f->id), idx);
    if (c.lat_base_ns) {
        uint64_t lat = c.lat_base_ns + (c.lat_spread_ns ? h % c.lat_spread_ns : 0);
        if (op & (IO_STAT | IO_DIR | IO_CLOSE)) lat = 100;
        now += lat;
    }
    hmix(0x10ull ^ ((uint64_t)op << 20) ^ (size << 32) ^ cls);
    point(PK_IO);
    if (!faults_on) return d;
    io_pending_after = 0;
    if (c.explicit_mode) {
        for (int i = 0; i < sh->n_exp_fault; ++i) {
            Fault& x = sh->exp_fault[i];
            if (x.inc != sh->incarnation || x.fid != f->id || x.at != idx || x.kind == FK_CRASH_STEP) continue;
            if (x.kind == FK_CLOCKJUMP || x.kind == FK_SPURIOUS || x.kind == FK_ALLOC) continue;
            if (x.arg2 && x.arg2 != op) continue;    // trace drifted
            rec_fault(f, x.kind, idx, x.arg, x.arg2);
            if (x.kind == FK_CRASH_BEFORE) crash_now("before I/O");
            if (x.kind == FK_CRASH_AFTER) { io_pending_after = gio; return d; }
            if (x.kind == FK_SLOW) { block(FS_SLEEP, nullptr, now + x.arg); continue; }
            d.kind = x.kind; d.arg = x.arg; return d;
        }
        return d;
    }
    if (c.crash_io && gio == c.crash_io && f->nopre == 0) {
        if (!c.crash_after) { rec_fault(f, FK_CRASH_BEFORE, idx, 0, op); crash_now("before I/O"); }
        rec_fault(f, FK_CRASH_AFTER, idx, 0, op); io_pending_after = gio; return d;
    }
    if (c.p_slow > 0 && f->nopre == 0 && rfault.chance(c.p_slow)) {
        uint64_t t = 1 + rfault.below(c.slow_ns); rec_fault(f, FK_SLOW, idx, t, op);
        block(FS_SLEEP, nullptr, now + t);
    }
    for (int i = 0; i < c.nrules; ++i) {
        FaultRule& r = c.rules[i];
        if (!(r.classes & cls) || !(r.ops & op) || gio < r.from || gio > r.to || r.hits >= r.max_hits) continue;
        if (!rfault.chance(r.p)) continue;
        r.hits++;
        d.kind = r.kind; d.arg = rfault.next() >> 8;
        rec_fault(f, d.kind, idx, d.arg, op);
        return d;
    }
    return d;
}
void io_leave(uint32_t op) {
    if (!active) return;
    if (io_pending_after && io_pending_after == gio) crash_now("after I/O");
}

// =====================================================================
// pthread layer
struct SMutex { int owner; int count; int seq; int pad; int kind; };   // over pthread_mutex_t (kind at 16)
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m); int t = 0; if (a) pthread_mutexattr_gettype(a, &t); ((SMutex*)m)->kind = t; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* pm) {
    if (!active) return 0;
    mcheck((uintptr_t)pm, 8, true);
    SMutex* m = (SMutex*)pm;
    point(PK_LOCK);
    if (m->owner == cur->id + 1) {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        violation("deadlock", "thread locks a mutex it already holds");
    }
    while (m->owner) { block(FS_MUTEX, m, 0); mcheck((uintptr_t)pm, 8, true); }
    m->owner = cur->id + 1; m->count = 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* pm) {
    if (!active) return 0;
    mcheck((uintptr_t)pm, 8, true);
    SMutex* m = (SMutex*)pm; point(PK_LOCK);
    if (m->owner == cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (m->owner) return EBUSY;
    m->owner = cur->id + 1; m->count = 1; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* pm) {
    if (!active) return 0;
    mcheck((uintptr_t)pm, 8, true);
    SMutex* m = (SMutex*)pm;
    if (m->owner != cur->id + 1) violation("mutex-misuse", "unlock of a mutex held by %d", m->owner - 1);
    if (--m->count > 0) return 0;
    m->owner = 0; wake_all(FS_MUTEX, m);
    point(PK_UNLOCK);
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* pm, uint64_t deadline) {
    SMutex* m = (SMutex*)pm;
    mcheck((uintptr_t)c, 8, true);
    point(PK_COND);
    if (m->owner != cur->id + 1) violation("mutex-misuse", "cond wait without the mutex");
    int cnt = m->count;
    m->owner = 0; m->count = 0; wake_all(FS_MUTEX, m);
    bool to = false;
    if (deadline && deadline <= now) { to = true; point(PK_YIELD); }
    else {
        uint64_t dl = deadline;
        // spurious wake-up fault
        if (faults_on && sh->sc.p_spurious > 0 && !sh->fc.explicit_mode && cur->nopre == 0 && rfault.chance(sh->sc.p_spurious)) {
            uint64_t t = 1 + rfault.below(2000000); rec_fault(cur, FK_SPURIOUS, cur->fstep, t);
            dl = now + t; if (deadline && deadline < dl) dl = deadline;
        } else if (faults_on && sh->fc.explicit_mode) {
            for (int i = 0; i < sh->n_exp_fault; ++i) { Fault& x = sh->exp_fault[i];
                if (x.inc == sh->incarnation && x.fid == cur->id && x.kind == FK_SPURIOUS && x.at == cur->fstep) {
                    rec_fault(cur, FK_SPURIOUS, cur->fstep, x.arg); dl = now + x.arg; if (deadline && deadline < dl) dl = deadline; break; } }
        }
        block(FS_COND, c, dl);
        to = cur->timed_out && deadline && now >= deadline;
    }
    while (m->owner) block(FS_MUTEX, m, 0);
    m->owner = cur->id + 1; m->count = cnt;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active) return 0; return cond_wait_common(c, m, 0); }
static uint64_t abs_to_deadline(clockid_t clk, const struct timespec* ts);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!active) return 0; return cond_wait_common(c, m, abs_to_deadline(CLOCK_REALTIME, ts)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!active) return 0; return cond_wait_common(c, m, abs_to_deadline(k, ts)); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!active) return 0;
    mcheck((uintptr_t)c, 8, true);
    point(PK_SIGNAL);
    Fiber* w[MAXFIB]; int n = 0;
    for (int i = 0; i < nfib; ++i) if (fibs[i].state == FS_COND && fibs[i].waddr == c) w[n++] = &fibs[i];
    if (!n) return 0;
    uint64_t at = ++cur->fsig; Fiber* p = w[0];
    if (n > 1) {
        if (sh->sc.mode == 1 || sh->sc.mode == 2) { p = w[rsched.below(n)]; rec_sched(cur, 2, at, p->id, 0); }
        else if (sh->sc.mode == 3) {
            while (cur->xg_cur < cur->xg_end && sh->exp_sched[cur->xg_cur].at < at) cur->xg_cur++;
            if (cur->xg_cur < cur->xg_end && sh->exp_sched[cur->xg_cur].at == at) { Fiber* q = by_id(sh->exp_sched[cur->xg_cur].pick, w, n); if (q) p = q; }
        }
    }
    p->state = FS_RUN; p->deadline = 0;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!active) return 0; mcheck((uintptr_t)c, 8, true); point(PK_SIGNAL); wake_all(FS_COND, c); return 0; }

void sim_fiber_main() {
    Fiber* f = cur;
    errno = 0;
    f->ret = f->fn(f->arg);
    for (int i = f->ndtor - 1; i >= 0; --i) f->dtors[i].fn(f->dtors[i].obj);
    for (int i = 0; i < 64; ++i) if (f->tls[i]) do_free(f->tls[i]);
    point(PK_EXIT);
    f->state = FS_DONE; f->ssp = 0;
    wake_all(FS_JOIN, f);
    schedule_blocked();
    harness_error("finished fiber resumed");
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!active) return EAGAIN;
    Fiber* f = new_fiber(fn, arg);
    if (!f) harness_error("too many threads");
    *t = (pthread_t)(f->id + 1);
    f->nopre = 0;
    point(PK_CREATE);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** ret) {
    if (!active) return 0;
    int id = (int)t - 1; if (id < 0 || id >= nfib) return ESRCH;
    Fiber* f = &fibs[id];
    if (f == cur) return EDEADLK;
    point(PK_JOIN);
    while (f->state != FS_DONE) block(FS_JOIN, f, 0);
    f->joined = true; if (ret) *ret = f->ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { int id = (int)t - 1; if (id >= 0 && id < nfib) fibs[id].detached = true; return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(cur ? cur->id + 1 : 1); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_setname_np(pthread_t t, const char* n) { int id = (int)t - 1; if (id >= 0 && id < nfib) snprintf(fibs[id].name, sizeof fibs[id].name, "%s", n); return 0; }
int __wrap_sched_yield() {
    // A fiber that busy-waits for a sleeping one would need millions of steps to let the clock reach the deadline: after a thousand
    // yields in a row each further one takes 10 us.
    if (active && cur) { cur->y_cnt = now - cur->y_last > 1000000 ? 0 : cur->y_cnt + 1; cur->y_last = now; if (cur->y_cnt > 1000) { now += 10000; wake_timers(); } }
    point(PK_YIELD); return 0;
}

// ---------------------------------------------------------------- time
static const uint64_t WALL0 = 1700000000ull * 1000000000ull, MONO0 = 1000ull * 1000000000ull;
static uint64_t wall() { return WALL0 + now + (sh ? sh->wall_skew_ns : 0); }
static uint64_t abs_to_deadline(clockid_t clk, const struct timespec* ts) {
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if ((int64_t)ts->tv_sec < 0) return 1;
    if ((uint64_t)ts->tv_sec > 9000000000ull) return now + 400000000ull * 1000000000ull; // "forever"
    uint64_t base = clk == CLOCK_REALTIME ? wall() : MONO0 + now;
    return t <= base ? (now ? now : 1) : now + (t - base);
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (active) { now += 20; }
    uint64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : MONO0 + now;
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) { if (active) now += 20; uint64_t t = wall(); tv->tv_sec = t / 1000000000ull; tv->tv_usec = t % 1000000000ull / 1000; return 0; }
time_t __wrap_time(time_t* p) { time_t t = wall() / 1000000000ull; if (p) *p = t; return t; }
int __wrap_nanosleep(const struct timespec* r, struct timespec* rem) {
    if (!active) return 0;
    sleep_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); if (rem) memset(rem, 0, sizeof *rem); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*) {
    if (!active) return 0;
    uint64_t t = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec;
    if (flags & TIMER_ABSTIME) { uint64_t d = abs_to_deadline(c, r); sleep_ns(d > now ? d - now : 1); } else sleep_ns(t);
    return 0; }
int __wrap_usleep(unsigned us) { sleep_ns((uint64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sleep_ns((uint64_t)s * 1000000000ull); return 0; }

// ---------------------------------------------------------------- randomness
static uint64_t rand_state = 1;
int __wrap_rand() { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)(rand_state >> 33); }
void __wrap_srand(unsigned s) { rand_state = mix2(sh ? sh->seed : 0, s); }
long __wrap_random() { return __wrap_rand(); }
long __wrap_getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = __wrap_rand(); return n; }

// ---------------------------------------------------------------- process
void __wrap_abort() { violation("abort", "abort() called"); }
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    const char* b = strrchr(f, '/'); violation("assert", "assertion `%s' failed at %s:%u (%s)", e, b ? b + 1 : f, l, fn); }
void __wrap_exit(int c) { if (active) violation("exit", "exit(%d) called", c); syscall(SYS_exit_group, c); __builtin_unreachable(); }
char* __wrap_getenv(const char*) { return nullptr; }
long __real_syscall(long, long, long, long, long, long, long);
// kernel thread and process ids are taken from the simulation (Jungle's logger prints them)
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (active && cur && n == SYS_gettid) return 4200 + 100 * sh->incarnation + cur->id;
    return __real_syscall(n, a, b, c, d, e, f);
}
pid_t __wrap_gettid() { return 4200 + 100 * sh->incarnation + (cur ? cur->id : 0); }
pid_t __wrap_getpid() { return 4200 + 100 * sh->incarnation; }
int __wrap_sigaction(int, const struct sigaction*, struct sigaction* o) { if (o) memset(o, 0, sizeof *o); return 0; }
sighandler_t __wrap_signal(int, sighandler_t) { return SIG_DFL; }
int __wrap_pthread_kill(pthread_t, int) { return 0; }
int __wrap_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }

// ---------------------------------------------------------------- guards, TLS
int __wrap___cxa_guard_acquire(uint8_t* g) {
    if (g[0]) return 0;
    if (!active) { return 1; }
    point(PK_GUARD);
    while (g[1] && !g[0]) block(FS_GUARD, g, 0);
    if (g[0]) return 0;
    g[1] = 1; return 1;
}
void __wrap___cxa_guard_release(uint8_t* g) { g[0] = 1; g[1] = 0; if (active) { wake_all(FS_GUARD, g); } }
void __wrap___cxa_guard_abort(uint8_t* g) { g[1] = 0; if (active) wake_all(FS_GUARD, g); }
int __wrap___cxa_thread_atexit(void (*d)(void*), void* o, void*) {
    if (!active || !cur) return 0;
    if (cur->ndtor < 64) { cur->dtors[cur->ndtor].fn = d; cur->dtors[cur->ndtor].obj = o; cur->ndtor++; }
    return 0;
}
struct EmuTls { size_t size, align; size_t index; void* templ; };
static size_t emutls_n = 0;
static void* emu0[64];
void* __emutls_get_address(EmuTls* o) {
    if (!o->index) o->index = ++emutls_n;
    if (o->index >= 64) { raw_write(2, "emutls overflow\n", 16); syscall(SYS_exit_group, 7); }
    void** slot = cur ? &cur->tls[o->index] : &emu0[o->index];
    if (!*slot) { void* p = do_alloc(o->size, o->align < 16 ? 16 : o->align); if (o->templ) memcpy(p, o->templ, o->size); else memset(p, 0, o->size); *slot = p; }
    return *slot;
}

// =====================================================================
// __tsan_* runtime
#define RD(n) void __tsan_read##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, false); } \
              void __tsan_unaligned_read##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, false); } \
              void __tsan_read##n##_pc(void* a, void*) { mem_point(); mcheck((uintptr_t)a, n, false); }
#define WR(n) void __tsan_write##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, true); } \
              void __tsan_unaligned_write##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, true); } \
              void __tsan_write##n##_pc(void* a, void*) { mem_point(); mcheck((uintptr_t)a, n, true); } \
              void __tsan_read_write##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, true); } \
              void __tsan_unaligned_read_write##n(void* a) { mem_point(); mcheck((uintptr_t)a, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
void __tsan_init() {}
void __tsan_vptr_read(void** a) { mem_point(); mcheck((uintptr_t)a, 8, false); }
void __tsan_vptr_update(void** a, void*) { mem_point(); mcheck((uintptr_t)a, 8, true); }
void __tsan_func_entry(void* pc) { if (cur) { if (cur->ssp >= 0 && cur->ssp < 256) cur->ss[cur->ssp] = (uintptr_t)pc; cur->ssp++; } }
void __tsan_func_exit() { if (cur && cur->ssp > 0) cur->ssp--; }
void __tsan_read_range(void* a, unsigned long n) { mem_point(); mcheck_range((uintptr_t)a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { mem_point(); mcheck_range((uintptr_t)a, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { mem_point(); mcheck_range((uintptr_t)d, n, true); mcheck_range((uintptr_t)s, n, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { mem_point(); mcheck_range((uintptr_t)d, n, true); mcheck_range((uintptr_t)s, n, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { mem_point(); mcheck_range((uintptr_t)d, n, true); return memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (active && n) { mcheck_range((uintptr_t)a, n, false); mcheck_range((uintptr_t)b, n, false); } return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { return __wrap_memcmp(a, b, n); }

#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, false); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)(o | v); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)(o & v); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)(o ^ v); return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; *a = (T)~(o & v); return o; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; if (o == c) *a = v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(PK_ATOMIC); mcheck((uintptr_t)a, bits / 8, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { point(PK_ATOMIC); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// =====================================================================
static void on_signal(int s, siginfo_t* si, void*) {
    if (active) violation(s == SIGSEGV || s == SIGBUS ? "segfault" : "signal", "signal %d at address %p", s, si->si_addr);
    raw_write(2, "signal outside the simulation\n", 30); syscall(SYS_exit_group, 8);
}
extern "C" int __real_sigaction(int, const struct sigaction*, struct sigaction*);
void* raw_mmap_shared(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { raw_write(2, "shm failed\n", 11); syscall(SYS_exit_group, 7); }
    return p;
}
void rt_init() {
    if (!arena_up) arena_init();
    sh = (Shared*)raw_mmap_shared(sizeof(Shared));
    ptab = (ProbeTab*)raw_mmap_shared(sizeof(ProbeTab));
    void* s = mmap(STACKS, STACK * MAXFIB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (s != STACKS) { raw_write(2, "stack mmap failed\n", 18); syscall(SYS_exit_group, 7); }
    for (int i = 0; i < MAXFIB; ++i) mprotect(STACKS + (size_t)i * STACK, 4096, PROT_NONE);
    __libc_single_threaded = 0;
}
void child_start() {
    // fresh heap region so that the parent's allocations cannot influence addresses
    bump = 1ull << 30;
    memset(freel, 0, sizeof freel); freebig = nullptr; qn = 0; qbytes = 0; alloc_id = 0;
    stack_t st; memset(&st, 0, sizeof st); st.ss_sp = sigstk; st.ss_size = sizeof sigstk; sigaltstack(&st, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) __real_sigaction(s, &sa, nullptr);
    rsched = Rng(mix2(sh->seed, 0x5c4ed + sh->incarnation * 1000003ull));
    rfault = Rng(mix2(sh->seed, 0xfa017 + sh->incarnation * 1000003ull));
    rand_state = mix2(sh->seed, 77 + sh->incarnation);
    now = sh->base_ns; gsync = gio = gpoints = 0; stamps = 0; next_deadline = ~0ull; nfib = 0;
    pct_n = pct_i = 0; pct_low = -1;
    if (sh->sc.mode == 2) {
        pct_n = sh->sc.pct_points < 64 ? sh->sc.pct_points : 64;
        for (int i = 0; i < pct_n; ++i) pct_change[i] = 1 + rsched.below(sh->sc.pct_len);
        for (int i = 0; i < pct_n; ++i) for (int j = i + 1; j < pct_n; ++j) if (pct_change[j] < pct_change[i]) { uint64_t t = pct_change[i]; pct_change[i] = pct_change[j]; pct_change[j] = t; }
    }
    crash_req = false; faults_on = true; preempt_on = true; io_pending_after = 0;
    sh->status = RS_RUNNING;
}
static void (*main_fn)();
static void* main_entry(void*) { main_fn(); finish_ok(); return nullptr; }
void run_main(void (*fn)()) {
    main_fn = fn;
    Fiber boot; memset(&boot, 0, sizeof boot);
    Fiber* f = new_fiber(main_entry, nullptr);
    snprintf(f->name, sizeof f->name, "main");
    cur = f; active = true; switched_in(f);
    void* dummy; sim_swap(&dummy, f->sp);
    __builtin_unreachable();
}
} // namespace sim
