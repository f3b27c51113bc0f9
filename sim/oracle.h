// History and reference model of the key-value world (uninstrumented).
#pragma once
#include "run.h"
namespace kvo {
enum { MAXDB = 3, MAXKEY = 48, MAXW = 5000, MAXR = 9000, MAXV = 700, MAXVE = 30000, MAXINC = 6, MAXSY = 900, MAXOBS = 3000, NOSEQ = 0 };
enum Fate : uint8_t { PENDING, ACKED, MAYBE, REJECTED };
static const uint64_t INF = ~0ull;
struct Write {
    uint8_t type, db, key, inc, client, fate, lost, base, hasmeta, seen, custom, delop, unsure; // unsure: not exact and not found by a recovery, so lost or overwritten; type: 0 set, 1 delete
    int32_t b0, bpos, bsize, gid;
    uint64_t inv, ret;
    uint64_t lo, hi;         // lo < seq <= hi ; exact when hi == lo + 1
    uint64_t gone_at;        // after a recovery at this sequence number the write cannot be the newest any more
};
struct Read { uint8_t db, key, inc, client, kind; uint32_t res; uint64_t inv, ret; };       // res: operation id, 0 = absent
struct View { uint8_t db, inc, kind, client; uint64_t inv, ret, mfix; uint64_t cover; int32_t e0, ne; };
struct VEnt { uint8_t key; uint32_t op; };
struct SyncRec { uint8_t db, inc, fsync, kind; uint64_t inv, ret; };
struct SeqObs { uint8_t db, inc, mask; uint64_t inv, ret, v[4]; };                       // 0 max 1 min 2 synced 3 flushed
struct Hist {
    int nw, nr, nv, nve, nsy, nobs; bool full;
    int ndb, nkey;
    Write w[MAXW]; Read r[MAXR]; View v[MAXV]; VEnt ve[MAXVE]; SyncRec sy[MAXSY]; SeqObs obs[MAXOBS];
    uint64_t N[MAXINC][MAXDB];            // sequence number the incarnation started from
    uint64_t F[MAXINC][MAXDB]; bool crashed[MAXINC][MAXDB];   // last flushed number when it was opened; whether a crash preceded
    uint64_t Nrep[MAXINC][MAXDB];         // maximum it reported when it was opened
    uint32_t base[MAXINC][MAXDB][MAXKEY]; // contents the incarnation started from
    uint64_t floorN[MAXDB];
    int comp[MAXDB]; uint64_t cbad[MAXDB];  // level-0 compactions that are running now; highest number when a crash stopped one
};
extern Hist* H;
// ---- building the history
uint32_t new_write(int db, int key, int type, int client, uint64_t lo);       // returns operation id, fate PENDING
void finish_write(uint32_t op, Fate f, uint64_t hi);
void link_batch(uint32_t first, int n, int gid);
uint32_t new_read(int db, int key, int client, int kind);
void finish_read(uint32_t r, uint32_t res);
void drop_read(uint32_t r);
int new_view(int db, int client, int kind);
void view_ret(int v);
void view_add(int v, int key, uint32_t op);                                   // op 0: key covered and absent
void add_sync(int db, bool fsync, uint64_t inv, int kind);
void learn_seq(uint32_t op, uint64_t seq, const char* how);
uint32_t find_delete(int db, int key, uint64_t seq);                          // delete operation that can own the sequence number, learns it; violation if none
uint32_t by_seq(int db, uint64_t seq);                                        // exact owner or 0
// ---- judging
struct Obs { uint32_t op[MAXKEY]; };
void check_incarnation(int inc, bool crashed);                                 // linearizability, views, order
void check_recovery(int inc, int db, uint64_t n, const Obs& o, bool after_crash, bool faulty);   // at the start of incarnation inc; sets base and N
const char* chk_excuse(int inc, int db, uint64_t chk);                         // a known reason why this checkpoint may not be readable as such (C09's known findings)
bool consistent(int inc, int db, int key, uint64_t m, uint32_t op);
const char* opname(uint32_t op, char* buf, size_t n);
}
