// Deterministic simulator: the simulated disk and the libc file calls routed to it.
#include "rt.h"
#include "vfs.h"
#include <initializer_list>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

enum { MAXINO = 1024, MAXPG = 1024, NPAGES = 16384, PG = 4096, SEC = 512, MAXNAME = 1024, MAXJ = 2048, PATHN = 200 };
struct Inode {
    bool used, isdir; int opens; uint64_t id;
    uint64_t size, dsize; uint32_t npg;   // highest page index touched + 1
    uint32_t cur[MAXPG], dur[MAXPG];
    uint8_t dirty[MAXPG];
};
struct Name { char path[PATHN]; int ino; };
struct NameMap { int n; Name e[MAXNAME]; };
struct Jop { int type; int ino; char a[PATHN], b[PATHN]; };  // 1 create, 2 unlink, 3 rename
struct Disk {
    uint64_t next_id;
    int nino; Inode ino[MAXINO];
    NameMap cur, dur;
    int nj; Jop j[MAXJ];
    uint32_t bump; uint32_t freehead; uint32_t nextfree[NPAGES];
    uint64_t capacity, used_pages;
    VfsStat st;
    uint8_t page[NPAGES][PG];
};
static Disk* D = nullptr;
struct Fd { int kind; int ino; uint64_t pos; int flags; char path[PATHN]; int dirpos; }; // 1 file 2 dir
enum { FD0 = 100, NFD = 512 };
static Fd fds[NFD];

VfsStat& vfs_stat() { return D->st; }
void vfs_set_capacity(uint64_t b) { D->capacity = b; }
static int arch_every, arch_n;
void vfs_fail_archives(int every) { arch_every = every; arch_n = 0; }
void vfs_init() { D = (Disk*)raw_mmap_shared(sizeof(Disk)); vfs_reset(); }
void vfs_reset() {
    for (int i = 0; i < D->nino; ++i) {
        Inode& n = D->ino[i]; n.used = false; n.opens = 0;
        memset(n.cur, 0, sizeof(uint32_t) * n.npg); memset(n.dur, 0, sizeof(uint32_t) * n.npg); memset(n.dirty, 0, n.npg);
        n.npg = 0; n.size = n.dsize = 0;
    }
    D->nino = 0; D->cur.n = D->dur.n = 0; D->nj = 0; D->bump = 1; D->freehead = 0; D->used_pages = 0; D->capacity = 0;
    D->next_id = 1; memset(&D->st, 0, sizeof D->st);
    D->nino = 1; D->ino[0].used = D->ino[0].isdir = true; D->ino[0].opens = 0; D->ino[0].id = D->next_id++;
    for (NameMap* m : { &D->cur, &D->dur }) { m->n = 1; snprintf(m->e[0].path, PATHN, "/sim"); m->e[0].ino = 0; }
}
void vfs_start_incarnation() { memset(fds, 0, sizeof fds); for (int i = 0; i < D->nino; ++i) D->ino[i].opens = 0; }

static uint32_t pg_alloc() {
    uint32_t p;
    if (D->freehead) { p = D->freehead; D->freehead = D->nextfree[p]; }
    else { if (D->bump >= NPAGES) harness_error("simulated disk is full (pages)"); p = D->bump++; }
    D->used_pages++;
    memset(D->page[p], 0, PG); return p;
}
static void pg_free(uint32_t p) { if (!p) return; D->used_pages--; D->nextfree[p] = D->freehead; D->freehead = p; }
static void norm(const char* in, char* out) {
    size_t o = 0;
    for (const char* p = in; *p && o < PATHN - 1;) {
        if (p[0] == '.' && p[1] == '/' && (p == in || p[-1] == '/')) { p += 2; continue; }
        if (p[0] == '/' && o && out[o - 1] == '/') { ++p; continue; }
        out[o++] = *p++;
    }
    while (o > 1 && out[o - 1] == '/') --o;
    out[o] = 0;
}
static int mfind(NameMap& m, const char* p) { for (int i = 0; i < m.n; ++i) if (!strcmp(m.e[i].path, p)) return i; return -1; }
static void mset(NameMap& m, const char* p, int ino) {
    int i = mfind(m, p); if (i < 0) { if (m.n >= MAXNAME) harness_error("too many names"); i = m.n++; }
    snprintf(m.e[i].path, PATHN, "%s", p); m.e[i].ino = ino;
}
static void mdel(NameMap& m, const char* p) { int i = mfind(m, p); if (i >= 0) { m.n--; memmove(&m.e[i], &m.e[i + 1], sizeof(Name) * (m.n - i)); } }
static bool mhas(NameMap& m, int ino) { for (int i = 0; i < m.n; ++i) if (m.e[i].ino == ino) return true; return false; }
static void japply(NameMap& m, Jop& j) {
    if (j.type == 1) mset(m, j.a, j.ino); else if (j.type == 2) mdel(m, j.a);
    else { int i = mfind(m, j.a); if (i >= 0) { int ino = m.e[i].ino; mdel(m, j.a); mset(m, j.b, ino); } }
}
static void ino_reap(int k) {
    Inode& n = D->ino[k];
    if (!n.used || n.opens || mhas(D->cur, k) || mhas(D->dur, k)) return;
    for (int i = 0; i < D->nj; ++i) if (D->j[i].ino == k) return;
    for (uint32_t i = 0; i < n.npg; ++i) { if (n.cur[i] != n.dur[i]) pg_free(n.dur[i]); pg_free(n.cur[i]); n.cur[i] = n.dur[i] = 0; n.dirty[i] = 0; }
    n.npg = 0; n.used = false; n.size = n.dsize = 0;
}
static void reap_all() { for (int i = 0; i < D->nino; ++i) if (D->ino[i].used) ino_reap(i); }
static void meta_commit() {
    if (!D->nj) return;
    for (int i = 0; i < D->nj; ++i) japply(D->dur, D->j[i]);
    D->nj = 0; reap_all();
}
static void meta_op(int type, const char* a, const char* b, int ino) {
    Jop j; j.type = type; j.ino = ino; snprintf(j.a, PATHN, "%s", a); snprintf(j.b, PATHN, "%s", b ? b : "");
    japply(D->cur, j);
    if (!sh->fc.meta_prefix) japply(D->dur, j);
    else { if (D->nj >= MAXJ) meta_commit(); D->j[D->nj++] = j; }
}
static int new_ino(bool dir) {
    int k = -1; for (int i = 0; i < D->nino; ++i) if (!D->ino[i].used) { k = i; break; }
    if (k < 0) { if (D->nino >= MAXINO) harness_error("too many inodes"); k = D->nino++; }
    Inode& n = D->ino[k]; n.used = true; n.isdir = dir; n.opens = 0; n.size = n.dsize = 0; n.npg = 0; n.id = D->next_id++;
    return k;
}
static bool is_dir(const char* p) { if (!strcmp(p, "/") || !strcmp(p, ".") || !*p) return true; int i = mfind(D->cur, p); return i >= 0 && D->ino[D->cur.e[i].ino].isdir; }
static bool parent_ok(const char* p) {
    const char* s = strrchr(p, '/'); if (!s || s == p) return true;
    char b[PATHN]; snprintf(b, PATHN, "%.*s", (int)(s - p), p); return is_dir(b);
}
static int64_t ino_read(Inode& n, uint64_t off, void* buf, size_t c, bool dur = false) {
    uint64_t size = dur ? n.dsize : n.size;
    if (off >= size) return 0;
    if (c > size - off) c = size - off;
    uint8_t* b = (uint8_t*)buf; size_t d = 0;
    while (d < c) { uint64_t p = (off + d) / PG, o = (off + d) % PG; size_t k = PG - o; if (k > c - d) k = c - d;
        uint32_t pg = p < MAXPG ? (dur ? n.dur[p] : n.cur[p]) : 0;
        if (pg) memcpy(b + d, D->page[pg] + o, k); else memset(b + d, 0, k); d += k; }
    return c;
}
static int64_t ino_write(Inode& n, uint64_t off, const void* buf, size_t c) {
    if (off + c > (uint64_t)MAXPG * PG) { errno = EFBIG; return -1; }
    const uint8_t* b = (const uint8_t*)buf; size_t d = 0;
    while (d < c) {
        uint64_t p = (off + d) / PG, o = (off + d) % PG; size_t k = PG - o; if (k > c - d) k = c - d;
        if (p >= n.npg) n.npg = p + 1;
        if (n.cur[p] == n.dur[p]) { uint32_t np = pg_alloc(); if (n.dur[p]) memcpy(D->page[np], D->page[n.dur[p]], PG); n.cur[p] = np; n.dirty[p] = 0; }
        else if (!n.cur[p]) n.cur[p] = pg_alloc();      // truncated away earlier: starts as zeros, stays dirty
        memcpy(D->page[n.cur[p]] + o, b + d, k);
        for (uint64_t s = o / SEC; s <= (o + k - 1) / SEC; ++s) n.dirty[p] |= 1u << s;
        d += k;
    }
    if (off + c > n.size) n.size = off + c;
    return c;
}
static void ino_trunc(Inode& n, uint64_t len) {
    if (len < n.size) {
        for (uint64_t p = 0; p < n.npg; ++p) {
            uint64_t b = p * PG; if (b + PG <= len) continue;
            if (b >= len) { if (n.cur[p] && n.cur[p] != n.dur[p]) pg_free(n.cur[p]);
                n.cur[p] = 0; n.dirty[p] = n.dur[p] ? 0xff : 0; }
            else if (n.cur[p]) { // zero the tail of this page
                static const uint8_t z[PG] = { 0 }; uint64_t keep = n.size; ino_write(n, len, z, b + PG - len); n.size = keep; }
        }
    }
    n.size = len;
}
static void ino_fsync(Inode& n) {
    for (uint32_t p = 0; p < n.npg; ++p) {
        if (n.cur[p] != n.dur[p]) { pg_free(n.dur[p]); n.dur[p] = n.cur[p]; }
        n.dirty[p] = 0;
    }
    n.dsize = n.size;
}
void vfs_sync_all() { meta_commit(); for (int i = 0; i < D->nino; ++i) if (D->ino[i].used) ino_fsync(D->ino[i]); }

void vfs_crash_transform() {
    FaultCfg& c = sh->fc;
    // directory operations
    int keepn = D->nj;
    if (c.meta_prefix && D->nj) {
        uint64_t h = mix2(sh->seed, 0x3e7a + sh->incarnation);
        if (c.torn_mode == 1) keepn = D->nj; else if (c.torn_mode == 0) keepn = 0; else keepn = h % (D->nj + 1);
    }
    D->st.lost_meta += D->nj - keepn;
    for (int i = 0; i < keepn; ++i) japply(D->dur, D->j[i]);
    D->nj = 0;
    for (int k = 0; k < D->nino; ++k) {
        Inode& n = D->ino[k]; n.opens = 0; if (!n.used || n.isdir) continue;
        bool any = n.size != n.dsize; for (uint32_t p = 0; p < n.npg && !any; ++p) any = n.cur[p] != n.dur[p];
        if (!any) continue;
        D->st.torn_files++;
        uint64_t h = mix2(mix2(sh->seed, 0x70 + sh->incarnation), n.id);
        Rng r(h);
        int mode = c.torn_mode; double keep = 0.5;
        uint64_t prefix = ~0ull;
        if (mode == 3) { mode = (int)(h % 3); }
        if (mode == 4) { // everything up to a random byte position of the dirty range reached the disk
            uint64_t lim = n.size > n.dsize ? n.size : n.dsize; prefix = r.below(lim / SEC + 2) * SEC; if (r.onein(4)) prefix = r.below(lim + 1) / SEC * SEC; }
        if (mode == 2) { double ks[] = { 0.1, 0.5, 0.9 }; keep = ks[r.below(3)]; }
        uint64_t newsize;
        if (mode == 0) newsize = n.dsize; else if (mode == 1) newsize = n.size;
        else if (mode == 4) { newsize = n.size; if (prefix < newsize) newsize = prefix > n.dsize || n.size < n.dsize ? prefix : n.dsize; if (newsize > n.size) newsize = n.size; if (n.size < n.dsize) newsize = r.onein(2) ? n.size : n.dsize; }
        else { uint64_t w = r.below(3); newsize = w == 0 ? n.dsize : w == 1 ? n.size : 0;
            if (w == 2) { uint64_t lo = n.dsize < n.size ? n.dsize : n.size, hi = n.dsize < n.size ? n.size : n.dsize; newsize = lo + r.below(hi - lo + 1); if (n.size < n.dsize) newsize = r.onein(2) ? n.size : n.dsize; } }
        for (uint32_t p = 0; p < n.npg; ++p) {
            if (n.cur[p] == n.dur[p]) continue;
            uint32_t np = 0;
            for (int s = 0; s < PG / SEC; ++s) {
                bool d = n.dirty[p] & (1u << s);
                bool take;
                if (!d) take = false;
                else if (mode == 0) take = false; else if (mode == 1) take = true;
                else if (mode == 4) take = (uint64_t)p * PG + s * SEC < prefix;
                else take = r.chance(keep);
                if (d) { if (take) D->st.kept_sectors++; else D->st.lost_sectors++; }
                uint32_t src = take ? n.cur[p] : n.dur[p];
                if (src) { if (!np) np = pg_alloc(); memcpy(D->page[np] + s * SEC, D->page[src] + s * SEC, SEC); }
                else if (np) memset(D->page[np] + s * SEC, 0, SEC);
            }
            pg_free(n.cur[p]); pg_free(n.dur[p]); n.cur[p] = n.dur[p] = np; n.dirty[p] = 0;
        }
        n.size = n.dsize = newsize;
        // bytes beyond the new size must read as zero if the file grows again
        for (uint32_t p = 0; p < n.npg; ++p) { uint64_t b = (uint64_t)p * PG; if (b + PG <= newsize || !n.cur[p]) continue;
            uint64_t o = newsize > b ? newsize - b : 0; memset(D->page[n.cur[p]] + o, 0, PG - o); }
    }
    memcpy(&D->cur, &D->dur, sizeof(NameMap));
    reap_all();
}

uint32_t vfs_classify(const char* path) {
    const char* b = strrchr(path, '/'); b = b ? b + 1 : path;
    uint32_t bak = strstr(b, ".bak") ? (uint32_t)FC_BACKUP : 0u;
    if (!strncmp(b, "log", 3) && strstr(b, "manifest")) return FC_LOGMANI | bak;
    if (!strncmp(b, "log", 3) && b[3] >= '0' && b[3] <= '9') return FC_LOG;
    if (!strncmp(b, "table", 5) && strstr(b, "manifest")) return FC_TABLEMANI | bak;
    if (!strncmp(b, "table", 5)) return FC_TABLE;
    if (!strncmp(b, "db_manifest", 11)) return FC_DBMANI | bak;
    if (strstr(b, "system_logs") || strstr(b, ".log")) return FC_LOGGER;
    return FC_OTHER;
}

// ---------------------------------------------------------------- harness access
static Inode* lookup(const char* path) { char p[PATHN]; norm(path, p); int i = mfind(D->cur, p); return i < 0 ? nullptr : &D->ino[D->cur.e[i].ino]; }
bool vfs_exists(const char* path) { return lookup(path) != nullptr; }
int64_t vfs_size(const char* path) { Inode* n = lookup(path); return n ? (int64_t)n->size : -1; }
int64_t vfs_durable_size(const char* path) { Inode* n = lookup(path); return n ? (int64_t)n->dsize : -1; }
int64_t vfs_read_all(const char* path, void* buf, size_t cap) { Inode* n = lookup(path); return n ? ino_read(*n, 0, buf, cap) : -1; }
bool vfs_poke(const char* path, uint64_t off, const void* data, size_t c) { Inode* n = lookup(path); if (!n) return false; ino_write(*n, off, data, c); ino_fsync(*n); return true; }
bool vfs_put(const char* path, const void* data, size_t c) {
    char p[PATHN]; norm(path, p); int i = mfind(D->cur, p); int k;
    if (i < 0) { k = new_ino(false); Jop j; j.type = 1; j.ino = k; snprintf(j.a, PATHN, "%s", p); japply(D->cur, j); japply(D->dur, j); }
    else { k = D->cur.e[i].ino; ino_trunc(D->ino[k], 0); }
    if (c) ino_write(D->ino[k], 0, data, c); ino_fsync(D->ino[k]); return true; }
bool vfs_cut(const char* path, uint64_t s) { Inode* n = lookup(path); if (!n || s > n->size) return false; ino_trunc(*n, s); ino_fsync(*n); return true; }
bool vfs_remove(const char* path) { char p[PATHN]; norm(path, p); int i = mfind(D->cur, p); if (i < 0) return false; int k = D->cur.e[i].ino; mdel(D->cur, p); mdel(D->dur, p); ino_reap(k); return true; }
int vfs_list(const char* dir, char (*out)[200], int cap) {
    char p[PATHN]; norm(dir, p); size_t l = strlen(p); int n = 0;
    for (int i = 0; i < D->cur.n && n < cap; ++i) { const char* q = D->cur.e[i].path; if (!strncmp(q, p, l) && q[l] == '/' && !strchr(q + l + 1, '/')) snprintf(out[n++], 200, "%s", q + l + 1); }
    // sorted for determinism
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (strcmp(out[j], out[i]) < 0) { char t[200]; memcpy(t, out[i], 200); memcpy(out[i], out[j], 200); memcpy(out[j], t, 200); }
    return n;
}
int vfs_open_fds(const char* prefix) { int n = 0; size_t l = strlen(prefix); for (int i = 0; i < NFD; ++i) if (fds[i].kind == 1 && !strncmp(fds[i].path, prefix, l)) ++n; return n; }
uint64_t vfs_tree_hash(const char* prefix) {
    uint64_t h = 7; size_t l = strlen(prefix); static uint8_t buf[MAXPG * PG];
    for (int i = 0; i < D->cur.n; ++i) { if (strncmp(D->cur.e[i].path, prefix, l)) continue; Inode& n = D->ino[D->cur.e[i].ino];
        for (const char* c = D->cur.e[i].path; *c; ++c) h = mix2(h, *c);
        int64_t k = ino_read(n, 0, buf, sizeof buf); h = mix2(h, k); for (int64_t x = 0; x < k; ++x) h = (h ^ buf[x]) * 0x100000001b3ull; }
    return h;
}

// ---------------------------------------------------------------- libc calls
static int fd_new() { for (int i = 0; i < NFD; ++i) if (!fds[i].kind) return i; return -1; }
static Fd* fd_get(int fd) { int i = fd - FD0; if (i < 0 || i >= NFD || !fds[i].kind) { errno = EBADF; return nullptr; } return &fds[i]; }
static bool nospace(size_t c) { return D->capacity && (uint64_t)D->used_pages * PG + c > D->capacity; }

extern "C" {
int __wrap_open(const char* path, int flags, ...) {
    char p[PATHN]; norm(path, p);
    IoDecision d = io_enter(IO_OPEN, vfs_classify(p), 0);
    if (d.kind == FK_OPENFAIL || d.kind == FK_EIO) { errno = d.kind == FK_EIO ? EIO : EMFILE; return -1; }
    if (d.kind == FK_ENOSPC && (flags & O_CREAT)) { errno = ENOSPC; return -1; }
    int i = mfind(D->cur, p); int k;
    if (i >= 0) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        k = D->cur.e[i].ino;
        if (D->ino[k].isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    } else {
        if (!(flags & O_CREAT) || !parent_ok(p)) { errno = ENOENT; return -1; }
        k = new_ino(false); meta_op(1, p, nullptr, k);
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) ino_trunc(D->ino[k], 0);
    int f = fd_new(); if (f < 0) { errno = EMFILE; return -1; }
    fds[f].kind = 1; fds[f].ino = k; fds[f].pos = 0; fds[f].flags = flags; snprintf(fds[f].path, PATHN, "%s", p);
    D->ino[k].opens++;
    dbg("open %s -> %d", p, f + FD0);
    io_leave(IO_OPEN);
    return f + FD0;
}
int __wrap_open64(const char* path, int flags, ...) { return __wrap_open(path, flags, 0644); }
int __wrap_close(int fd) {
    if (fd >= 0 && fd < 3) return 0;
    Fd* f = fd_get(fd);
    if (!f) { if (sh && fd > 0) { int i = fd - FD0; if (i >= 0 && i < NFD) violation("bad-fd", "close of descriptor %d which is not open", fd); } return -1; }
    io_enter(IO_CLOSE, vfs_classify(f->path), 0);
    if (!f->kind) { errno = EBADF; return -1; }
    f->kind = 0; int k = f->ino; D->ino[k].opens--; ino_reap(k);
    dbg("close %d %s", fd, f->path);
    io_leave(IO_CLOSE);
    return 0;
}
ssize_t __wrap_pread(int fd, void* buf, size_t c, off_t off) {
    Fd* f = fd_get(fd); if (!f) return -1;
    IoDecision d = io_enter(IO_READ, vfs_classify(f->path), c);
    if (!(f = fd_get(fd))) return -1;
    if (off < 0) { errno = EINVAL; return -1; }
    if (d.kind == FK_EIO) { errno = EIO; return -1; }
    if (d.kind == FK_EINTR) { errno = EINTR; return -1; }
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if ((f->flags & O_DIRECT) && (((uintptr_t)buf | c | (uint64_t)off) & 511)) { errno = EINVAL; return -1; }
    size_t want = c;
    if (d.kind == FK_SHORT && c > 1) { want = 1 + d.arg % (c - 1); if (f->flags & O_DIRECT) { want &= ~511ull; if (!want) { errno = EINTR; return -1; } } }
    { uint64_t sz = D->ino[f->ino].size; size_t got = (uint64_t)off >= sz ? 0 : (want < sz - off ? want : sz - off); if (got) mem_range_check(buf, got, true); }
    int64_t r = ino_read(D->ino[f->ino], off, buf, want);
    if (verbose > 1) dbg("pread %s off %ld len %zu -> %ld", f->path, (long)off, c, (long)r);
    io_leave(IO_READ);
    return r;
}
ssize_t __wrap_pwrite(int fd, const void* buf, size_t c, off_t off) {
    Fd* f = fd_get(fd); if (!f) return -1;
    IoDecision d = io_enter(IO_WRITE, vfs_classify(f->path), c);
    if (!(f = fd_get(fd))) return -1;
    if (off < 0) { errno = EINVAL; return -1; }
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if ((f->flags & O_DIRECT) && (((uintptr_t)buf | c | (uint64_t)off) & 511)) { errno = EINVAL; return -1; }
    if (c == 0) return 0;
    Inode& n = D->ino[f->ino];
    size_t want = c; int err = 0;
    if (nospace(c)) { d.kind = FK_ENOSPC; d.arg = 0; sh->fault_cnt[FK_ENOSPC]++; }
    if (d.kind == FK_EIO) { err = EIO; want = (d.arg & 1) ? (d.arg >> 1) % c : 0; }
    else if (d.kind == FK_EINTR) { errno = EINTR; return -1; }
    else if (d.kind == FK_ENOSPC) { want = (d.arg & 1) ? (d.arg >> 1) % c : 0; if (!want) err = ENOSPC; }
    else if (d.kind == FK_SHORT && c > 1) want = 1 + d.arg % (c - 1);
    if ((f->flags & O_DIRECT) && want != c) { want &= ~511ull; if (!want && !err) err = EINTR; }
    if (c) mem_range_check(buf, c, false);
    if (want) { if (ino_write(n, off, buf, want) < 0) return -1; }
    hash_event(mix2(off, want));
    dbg("pwrite %s off %ld len %zu -> %ld", f->path, (long)off, c, err ? -1L : (long)want);
    io_leave(IO_WRITE);
    if (err) { errno = err; return -1; }
    return want;
}
ssize_t __wrap_pread64(int fd, void* b, size_t c, off_t o) { return __wrap_pread(fd, b, c, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t c, off_t o) { return __wrap_pwrite(fd, b, c, o); }
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t c) { if (fd < FD0) return __real_read(fd, b, c); Fd* f = fd_get(fd); if (!f) return -1; ssize_t r = __wrap_pread(fd, b, c, f->pos); if (r > 0) f->pos += r; return r; }
ssize_t __wrap_write(int fd, const void* b, size_t c) {
    if (fd < 3) return (verbose || fd == 2) ? (verbose ? __real_write(fd, b, c) : (ssize_t)c) : (ssize_t)c;
    Fd* f = fd_get(fd); if (!f) return -1;
    uint64_t off = (f->flags & O_APPEND) ? D->ino[f->ino].size : f->pos;
    ssize_t r = __wrap_pwrite(fd, b, c, off); if (r > 0) f->pos = off + r; return r; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { ssize_t t = 0; for (int i = 0; i < n; ++i) { if (!v[i].iov_len) continue; ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t __wrap_lseek(int fd, off_t o, int w) {
    Fd* f = fd_get(fd); if (!f) return -1;
    io_enter(IO_STAT, vfs_classify(f->path), 0); if (!(f = fd_get(fd))) return -1;
    int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->pos : (int64_t)D->ino[f->ino].size;
    if (b + o < 0) { errno = EINVAL; return -1; } f->pos = b + o; return f->pos; }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_fsync(int fd) {
    Fd* f = fd_get(fd); if (!f) return -1;
    IoDecision d = io_enter(IO_FSYNC, vfs_classify(f->path), 0);
    if (!(f = fd_get(fd))) return -1;
    Inode& n = D->ino[f->ino];
    if (d.kind == FK_FSYNC_KEEP || d.kind == FK_EIO) { errno = EIO; dbg("fsync %s FAILS", f->path); return -1; }
    if (d.kind == FK_ENOSPC) { errno = ENOSPC; return -1; }
    if (d.kind == FK_FSYNC_DROP) { for (uint32_t p = 0; p < n.npg; ++p) n.dirty[p] = 0; errno = EIO; return -1; }
    ino_fsync(n); meta_commit();
    dbg("fsync %s", f->path);
    io_leave(IO_FSYNC);
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t len) {
    Fd* f = fd_get(fd); if (!f) return -1;
    IoDecision d = io_enter(IO_TRUNC, vfs_classify(f->path), len);
    if (!(f = fd_get(fd))) return -1;
    if (d.kind == FK_EIO) { errno = EIO; return -1; }
    if (d.kind == FK_EINTR) { errno = EINTR; return -1; }
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    if (len < 0) { errno = EINVAL; return -1; }
    if ((uint64_t)len > (uint64_t)MAXPG * PG) { errno = EFBIG; return -1; }
    ino_trunc(D->ino[f->ino], len);
    dbg("ftruncate %s %ld", f->path, (long)len);
    io_leave(IO_TRUNC); return 0;
}
int __wrap_ftruncate64(int fd, off_t l) { return __wrap_ftruncate(fd, l); }
int __wrap_unlink(const char* path) {
    char p[PATHN]; norm(path, p);
    IoDecision d = io_enter(IO_UNLINK, vfs_classify(p), 0);
    if (d.kind == FK_EIO) { errno = EIO; return -1; }
    int i = mfind(D->cur, p); if (i < 0) { errno = ENOENT; return -1; }
    int k = D->cur.e[i].ino;
    if (D->ino[k].isdir) { size_t l = strlen(p); for (int q = 0; q < D->cur.n; ++q) if (!strncmp(D->cur.e[q].path, p, l) && D->cur.e[q].path[l] == '/') { errno = ENOTEMPTY; return -1; } }
    meta_op(2, p, nullptr, k); ino_reap(k);
    dbg("unlink %s", p);
    io_leave(IO_UNLINK); return 0;
}
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_rmdir(const char* p) { return __wrap_unlink(p); }
int __wrap_rename(const char* a, const char* b) {
    char p[PATHN], q[PATHN]; norm(a, p); norm(b, q);
    IoDecision d = io_enter(IO_RENAME, vfs_classify(p), 0);
    if (d.kind == FK_EIO) { errno = EIO; return -1; }
    int i = mfind(D->cur, p); if (i < 0) { errno = ENOENT; return -1; }
    int old = mfind(D->cur, q); int oi = old >= 0 ? D->cur.e[old].ino : -1;
    meta_op(3, p, q, D->cur.e[i].ino); if (oi >= 0) ino_reap(oi);
    io_leave(IO_RENAME); return 0;
}
int __wrap_mkdir(const char* path, mode_t) {
    char p[PATHN]; norm(path, p);
    IoDecision d = io_enter(IO_MKDIR, vfs_classify(p), 0);
    if (d.kind == FK_EIO) { errno = EIO; return -1; }
    if (is_dir(p) || mfind(D->cur, p) >= 0) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    int k = new_ino(true); meta_op(1, p, nullptr, k); io_leave(IO_MKDIR); return 0;
}
static int do_stat(const char* path, struct stat* st) {
    char p[PATHN]; norm(path, p);
    io_enter(IO_STAT, vfs_classify(p), 0);
    memset(st, 0, sizeof *st);
    if (is_dir(p)) { st->st_mode = S_IFDIR | 0755; return 0; }
    int i = mfind(D->cur, p); if (i < 0) { errno = ENOENT; return -1; }
    Inode& n = D->ino[D->cur.e[i].ino]; st->st_mode = S_IFREG | 0644; st->st_size = n.size; st->st_ino = n.id; st->st_nlink = 1; st->st_blksize = 4096; return 0;
}
int __wrap_stat(const char* p, struct stat* st) { return do_stat(p, st); }
int __wrap_stat64(const char* p, struct stat64* st) { return do_stat(p, (struct stat*)st); }
int __wrap_lstat(const char* p, struct stat* st) { return do_stat(p, st); }
int __wrap_fstat(int fd, struct stat* st) { Fd* f = fd_get(fd); if (!f) return -1; memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = D->ino[f->ino].size; st->st_ino = D->ino[f->ino].id; st->st_nlink = 1; st->st_blksize = 4096; return 0; }
int __wrap_fstat64(int fd, struct stat64* st) { return __wrap_fstat(fd, (struct stat*)st); }
int __wrap_access(const char* p, int) { struct stat st; return do_stat(p, &st); }
int __wrap_statvfs(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0; }
int __wrap_ioctl(int fd, unsigned long, ...) { errno = ENOTTY; return -1; }
int __wrap_fcntl(int fd, int cmd, ...) { if (cmd == F_GETFL) { Fd* f = fd_get(fd); return f ? f->flags : -1; } return 0; }
int __wrap_poll(struct pollfd* p, nfds_t n, int) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return n; }

struct SDir { int magic; int pos, n; struct dirent de; char names[MAXNAME][PATHN]; uint8_t isdir[MAXNAME]; };
DIR* __wrap_opendir(const char* path) {
    char p[PATHN]; norm(path, p);
    io_enter(IO_DIR, FC_OTHER, 0);
    if (!is_dir(p)) { errno = ENOENT; return nullptr; }
    SDir* s = (SDir*)malloc(sizeof(SDir)); s->magic = 0xD1D1; s->pos = -2;
    s->n = 0;
    char (*nm)[200] = s->names;
    s->n = vfs_list(p, nm, MAXNAME);
    for (int i = 0; i < s->n; ++i) { char full[PATHN * 2]; snprintf(full, sizeof full, "%s/%s", p, s->names[i]); char q[PATHN]; norm(full, q); s->isdir[i] = is_dir(q); }
    return (DIR*)s;
}
struct dirent* __wrap_readdir(DIR* d) {
    SDir* s = (SDir*)d; memset(&s->de, 0, sizeof s->de);
    if (s->pos < 0) { strcpy(s->de.d_name, s->pos == -2 ? "." : ".."); s->de.d_type = DT_DIR; s->pos++; return &s->de; }
    if (s->pos >= s->n) return nullptr;
    snprintf(s->de.d_name, sizeof s->de.d_name, "%s", s->names[s->pos]); s->de.d_type = s->isdir[s->pos] ? DT_DIR : DT_REG; s->pos++; return &s->de;
}
struct dirent64* __wrap_readdir64(DIR* d) { return (struct dirent64*)__wrap_readdir(d); }
int __wrap_closedir(DIR* d) { free(d); return 0; }

// stdio on simulated files: only what libstdc++ streams and Jungle use
struct SFile { uint64_t magic; int fd; bool err, eof; };
static const uint64_t FMAGIC = 0x51f11e51f11e51f1ull;
static SFile* sf(void* f) { if (!f || f == stdin || f == stdout || f == stderr) return nullptr; return ((SFile*)f)->magic == FMAGIC ? (SFile*)f : nullptr; }
FILE* __wrap_fopen(const char* path, const char* mode) {
    int fl = 0; bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = __wrap_open(path, fl, 0644); if (fd < 0) return nullptr;
    SFile* f = (SFile*)malloc(512); memset(f, 0, 512); f->magic = FMAGIC; f->fd = fd; return (FILE*)f;
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
FILE* __wrap_fdopen(int fd, const char*) { SFile* f = (SFile*)malloc(512); memset(f, 0, 512); f->magic = FMAGIC; f->fd = fd; return (FILE*)f; }
int __real_fclose(FILE*); int __real_fileno(FILE*); int __real_fflush(FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*); size_t __real_fread(void*, size_t, size_t, FILE*);
int __wrap_fclose(FILE* f) { SFile* s = sf(f); if (!s) return __real_fclose(f); int r = __wrap_close(s->fd); s->magic = 0; free(s); return r; }
int __wrap_fileno(FILE* f) { SFile* s = sf(f); return s ? s->fd : __real_fileno(f); }
int __wrap_fflush(FILE* f) { if (f && sf(f)) return 0; if (!f || f == stdout || f == stderr) return 0; return __real_fflush(f); }
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { SFile* s = sf(f); if (!s) { if (f == stdout || f == stderr) return b; return __real_fwrite(p, a, b, f); } ssize_t r = __wrap_write(s->fd, p, a * b); return r < 0 ? 0 : r / (a ? a : 1); }
size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) { SFile* s = sf(f); if (!s) return __real_fread(p, a, b, f); ssize_t r = __wrap_read(s->fd, p, a * b); return r < 0 ? 0 : r / (a ? a : 1); }
int __wrap_puts(const char*) { return 1; }

// "shell" commands Jungle issues
static void rm_tree(const char* p) {
    size_t l = strlen(p);
    for (;;) { bool any = false;
        for (int i = 0; i < D->cur.n; ++i) { const char* q = D->cur.e[i].path; if (!strcmp(q, p) || (!strncmp(q, p, l) && q[l] == '/')) { int k = D->cur.e[i].ino; char c[PATHN]; snprintf(c, PATHN, "%s", q); meta_op(2, c, nullptr, k); ino_reap(k); any = true; break; } }
        if (!any) break; }
}
static void cp_file(const char* a, const char* b) {
    int i = mfind(D->cur, a); if (i < 0) return; int src = D->cur.e[i].ino;
    int j = mfind(D->cur, b); int dst;
    if (j < 0) { dst = new_ino(false); meta_op(1, b, nullptr, dst); } else { dst = D->cur.e[j].ino; ino_trunc(D->ino[dst], 0); }
    static uint8_t buf[PG]; for (uint64_t o = 0; o < D->ino[src].size; o += PG) { int64_t k = ino_read(D->ino[src], o, buf, PG); ino_write(D->ino[dst], o, buf, k); }
}
static int shell(const char* cmd) {
    dbg("shell: %s", cmd);
    io_enter(IO_OPEN, FC_OTHER, 1);
    char c[1024]; snprintf(c, sizeof c, "%s", cmd); char* av[16]; int n = 0;
    for (char* t = strtok(c, " "); t && n < 16; t = strtok(nullptr, " ")) { if (!strcmp(t, "2>") || t[0] == '>' ) { break; } av[n++] = t; }
    char a[PATHN], b[PATHN];
    if (n >= 2 && !strcmp(av[0], "rm")) { for (int i = 1; i < n; ++i) if (av[i][0] != '-') { norm(av[i], a); rm_tree(a); } return 0; }
    if (n >= 3 && !strcmp(av[0], "cp")) { norm(av[n - 2], a); norm(av[n - 1], b); if (is_dir(b)) { const char* s = strrchr(a, '/'); char t[PATHN * 2]; snprintf(t, sizeof t, "%s/%s", b, s ? s + 1 : a); norm(t, b); }
        if (mfind(D->cur, a) < 0) return 256; cp_file(a, b); return 0; }
    if (n >= 3 && !strcmp(av[0], "mv")) { norm(av[n - 2], a); norm(av[n - 1], b); int i = mfind(D->cur, a); if (i < 0) return 256; int o = mfind(D->cur, b); int oi = o >= 0 ? D->cur.e[o].ino : -1; meta_op(3, a, b, D->cur.e[i].ino); if (oi >= 0) ino_reap(oi); return 0; }
    if (n >= 3 && !strcmp(av[0], "mkdir")) { norm(av[n - 1], a); if (!is_dir(a)) { int k = new_ino(true); meta_op(1, a, nullptr, k); } return 0; }
    if (n >= 2 && (!strcmp(av[0], "tar") || !strcmp(av[0], "zip") || !strcmp(av[0], "gzip"))) return -2 - n; // handled below
    return 0;
}
int __wrap_system(const char* cmd) {
    int r = shell(cmd);
    if (r <= -2 && arch_every && ++arch_n % arch_every == 0) { sh->fault_cnt[FK_ENOSPC]++; return 512; }
    if (r <= -2) { // archive: "tar zcvf X.tar.gz X" -> copies X into X.tar.gz
        char c[1024]; snprintf(c, sizeof c, "%s", cmd); char arc[PATHN] = "", src[PATHN] = "", dir[PATHN] = ""; char* pv = nullptr;
        for (char* t = strtok(c, " "); t; t = strtok(nullptr, " ")) { if (t[0] == '>' || !strcmp(t, "2>") || !strcmp(t, "2>&1") || !strcmp(t, "&&")) break; if (pv && !strcmp(pv, "-C")) { norm(t, dir); pv = t; continue; } pv = t; if (t[0] == '-' || !strcmp(t, "tar")) continue; if (strstr(t, ".tar.gz") || strstr(t, ".zip")) norm(t, arc); else if (strncmp(t, "z", 1)) norm(t, src); }
        char full[PATHN * 2]; snprintf(full, sizeof full, "%s%s%s", dir, *dir ? "/" : "", src); char q[PATHN]; norm(full, q);
        if (*arc && mfind(D->cur, q) >= 0) cp_file(q, arc);
        return 0;
    }
    return r;
}
FILE* __wrap_popen(const char* cmd, const char*) { int r = __wrap_system(cmd); SFile* f = (SFile*)malloc(512); memset(f, 0, 512); f->magic = FMAGIC; f->fd = r; return (FILE*)f; }
int __wrap_pclose(FILE* f) { SFile* s = sf(f); if (!s) return -1; int r = s->fd; s->magic = 0; free(s); return r; }
} // extern "C"
void vfs_mkdir(const char* path) { char p[PATHN]; norm(path, p); if (is_dir(p)) return; int k = new_ino(true); meta_op(1, p, nullptr, k); }
} // namespace sim
