// Executable reference model of the ForestDB API that Jungle links against.
// ForestDB itself is not in the sandbox, so this component is a stub: an append-only
// record file with a chained CRC, whose I/O goes through the same simulated libc
// calls as Jungle's own, so that latency, faults, short writes and crashes apply.
#include "include/libforestdb/forestdb.h"
#include "rt.h"
#include <algorithm>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "fdb_model.h"

namespace {

uint32_t crcTab[256];
bool crcInit = false;
uint32_t crc32c(uint32_t crc, const void* d, size_t n) {
    if (!crcInit) {
        for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int k = 0; k < 8; ++k) c = (c & 1) ? 0x82f63b78u ^ (c >> 1) : c >> 1; crcTab[i] = c; }
        crcInit = true;
    }
    const uint8_t* p = (const uint8_t*)d; crc = ~crc;
    while (n--) crc = crcTab[(crc ^ *p++) & 0xff] ^ (crc >> 8);
    return ~crc;
}

enum : uint32_t { REC_MAGIC = 0xfdb0d0c5 };
enum : uint8_t { RT_DOC = 1, RT_DEL = 2, RT_COMMIT = 3 };
struct RecHdr { uint32_t magic, crc; uint32_t type, keylen, metalen, bodylen; uint64_t seq; };

struct Doc {
    std::string key, meta, body;
    uint64_t seq = 0, off = 0; uint32_t len = 0, seed = 0, crc = 0;
    bool del = false;
};
struct Cmp {
    fdb_custom_cmp_variable fn = nullptr; void* param = nullptr;
    bool operator()(const std::string& a, const std::string& b) const {
        if (fn) return fn((void*)a.data(), a.size(), (void*)b.data(), b.size(), param) < 0;
        return a < b;
    }
};
struct Ver { uint64_t commit; Doc* doc; };
struct CommitInfo { uint64_t seq; uint64_t off; uint64_t ndocs, live; };

struct File {
    std::string name; int fd = -1; int refs = 0; bool in_map = false;
    bool seqtree = false; Cmp cmp;
    std::mutex mu;
    std::map<std::string, std::vector<Ver>, Cmp>* idx = nullptr;
    std::map<uint64_t, Doc*> byoff;
    std::vector<Doc*> pending;
    std::vector<CommitInfo> commits;   // commit number c is commits[c-1]
    uint64_t seq = 0, seq_committed = 0;
    std::string buf; uint64_t buf_off = 0; uint32_t chain = 0;
    uint64_t live = 0, ndocs = 0;
    ~File() { for (auto& e : byoff) delete e.second; delete idx; }
};

std::mutex g_mu;
std::map<std::string, File*>* g_files = nullptr;
FdbCounters g_cnt;

int wr(File* f, const char* p, size_t n, uint64_t off) {
    int tries = 0;
    while (n) {
        ssize_t r = pwrite(f->fd, p, n, off);
        if (r <= 0) { if (r < 0 && errno == EINTR && ++tries < 16) continue; return -1; }
        p += r; n -= r; off += r;
    }
    return 0;
}
int flushBuf(File* f) {
    if (f->buf.empty()) return 0;
    if (wr(f, f->buf.data(), f->buf.size(), f->buf_off)) return -1;
    f->buf_off += f->buf.size(); f->buf.clear();
    return 0;
}
uint64_t endOff(File* f) { return f->buf_off + f->buf.size(); }

// Append a record to the write buffer.
uint32_t appendRec(File* f, uint32_t type, uint64_t seq, const std::string& k, const std::string& m, const std::string& b, Doc* d) {
    RecHdr h; h.magic = REC_MAGIC; h.crc = 0; h.type = type; h.keylen = k.size(); h.metalen = m.size(); h.bodylen = b.size(); h.seq = seq;
    uint32_t c = crc32c(f->chain, &h, sizeof h);
    c = crc32c(c, k.data(), k.size()); c = crc32c(c, m.data(), m.size()); c = crc32c(c, b.data(), b.size());
    h.crc = c;
    if (d) { d->off = endOff(f); d->len = sizeof(h) + k.size() + m.size() + b.size(); d->seed = f->chain; d->crc = c; }
    f->buf.append((char*)&h, sizeof h); f->buf += k; f->buf += m; f->buf += b;
    f->chain = c;
    return c;
}

void applyCommit(File* f, uint64_t seq, uint64_t off) {
    uint64_t c = f->commits.size() + 1;
    for (Doc* d : f->pending) {
        auto& v = (*f->idx)[d->key];
        bool had = !v.empty() && !v.back().doc->del;
        uint64_t oldlen = had ? v.back().doc->len : 0;
        if (had) { f->ndocs--; f->live -= oldlen; }
        if (!d->del) { f->ndocs++; f->live += d->len; }
        if (!v.empty() && v.back().commit == c) v.back().doc = d; else v.push_back(Ver{c, d});
    }
    f->pending.clear();
    f->commits.push_back(CommitInfo{seq, off, f->ndocs, f->live});
    f->seq_committed = seq;
}

const Doc* visible(const std::vector<Ver>& v, uint64_t c) {
    for (size_t i = v.size(); i-- > 0;) if (v[i].commit <= c) return v[i].doc->del ? nullptr : v[i].doc;
    return nullptr;
}

fdb_status loadFile(File* f) {
    struct stat st;
    if (fstat(f->fd, &st)) return FDB_RESULT_READ_FAIL;
    std::string data; data.resize(st.st_size);
    size_t got = 0; int tries = 0;
    while (got < data.size()) {
        size_t n = std::min<size_t>(data.size() - got, 1 << 16);
        ssize_t r = pread(f->fd, &data[got], n, got);
        if (r < 0) { if (errno == EINTR && ++tries < 16) continue; return FDB_RESULT_READ_FAIL; }
        if (r == 0) break;
        got += r;
    }
    data.resize(got);
    size_t pos = 0; size_t good = 0; uint32_t chain = 0, good_chain = 0;
    std::vector<Doc*> docs;
    while (pos + sizeof(RecHdr) <= data.size()) {
        RecHdr h; memcpy(&h, &data[pos], sizeof h);
        if (h.magic != REC_MAGIC || h.type < 1 || h.type > 3) break;
        uint64_t len = sizeof h + (uint64_t)h.keylen + h.metalen + h.bodylen;
        if (pos + len > data.size()) break;
        uint32_t want = h.crc; h.crc = 0;
        uint32_t c = crc32c(chain, &h, sizeof h);
        c = crc32c(c, &data[pos + sizeof h], len - sizeof h);
        if (c != want) break;
        if (h.type == RT_COMMIT) {
            for (Doc* d : docs) { f->byoff[d->off] = d; f->pending.push_back(d); if (d->seq > f->seq) f->seq = d->seq; }
            docs.clear();
            if (h.seq > f->seq) f->seq = h.seq;
            applyCommit(f, h.seq, pos);
            good = pos + len; good_chain = c;
        } else {
            Doc* d = new Doc();
            const char* q = &data[pos + sizeof h];
            d->key.assign(q, h.keylen); d->meta.assign(q + h.keylen, h.metalen); d->body.assign(q + h.keylen + h.metalen, h.bodylen);
            d->seq = h.seq; d->off = pos; d->len = len; d->seed = chain; d->crc = want; d->del = h.type == RT_DEL;
            docs.push_back(d);
        }
        chain = c; pos += len;
    }
    for (Doc* d : docs) delete d;
    f->buf_off = good; f->chain = good_chain;
    if (f->commits.empty() && data.size()) return FDB_RESULT_NO_DB_HEADERS;
    return FDB_RESULT_SUCCESS;
}

void* dup(const std::string& s) {
    if (s.empty()) return nullptr;
    void* p = malloc(s.size()); if (p) memcpy(p, s.data(), s.size());
    return p;
}
void fillDoc(fdb_doc* o, const Doc* d, bool key, bool body) {
    if (key) { o->keylen = d->key.size(); if (!o->key) o->key = dup(d->key); else memcpy(o->key, d->key.data(), d->key.size()); }
    o->metalen = d->meta.size(); if (!o->meta) o->meta = dup(d->meta); else memcpy(o->meta, d->meta.data(), d->meta.size());
    o->bodylen = d->body.size();
    if (body) { if (!o->body) o->body = dup(d->body); else memcpy(o->body, d->body.data(), d->body.size()); }
    o->seqnum = d->seq; o->offset = d->off; o->deleted = d->del; o->size_ondisk = d->len;
}
// Read the record's bytes back from the simulated disk and check them.
fdb_status readBack(File* f, const Doc* d) {
    if (d->off >= f->buf_off) return FDB_RESULT_SUCCESS;
    size_t n = d->len;
    char stackbuf[512];
    std::string big; char* p = stackbuf;
    if (n > sizeof stackbuf) { big.resize(n); p = &big[0]; }
    size_t got = 0; int tries = 0;
    while (got < n) {
        ssize_t r = pread(f->fd, p + got, n - got, d->off + got);
        if (r < 0) { if (errno == EINTR && ++tries < 16) continue; return FDB_RESULT_READ_FAIL; }
        if (r == 0) return FDB_RESULT_CHECKSUM_ERROR;
        got += r;
    }
    RecHdr h; memcpy(&h, p, sizeof h);
    uint32_t want = h.crc; h.crc = 0;
    uint32_t c = crc32c(d->seed, &h, sizeof h);
    c = crc32c(c, p + sizeof h, n - sizeof h);
    if (c != want || c != d->crc) return FDB_RESULT_CHECKSUM_ERROR;
    return FDB_RESULT_SUCCESS;
}

} // namespace

struct _fdb_file_handle { uint64_t magic; File* f; };
struct _fdb_kvs_handle { uint64_t magic; File* f; bool snap; uint64_t commit; uint64_t snap_seq; };
struct _fdb_iterator { uint64_t magic; File* f; bool byseq; std::vector<const Doc*>* v; long pos; Cmp cmp; };
enum : uint64_t { M_FH = 0xf11e4a4d1e, M_KH = 0x6b4a4d1e, M_IT = 0x17e4a704, M_DEAD = 0xdead };

static void chk(uint64_t m, uint64_t want, const char* what) {
    if (m != want) sim::violation("fdb-handle-misuse", "%s called on a %s ForestDB handle", what, m == M_DEAD ? "closed" : "invalid");
}
static void unref(File* f) {
    File* del = nullptr;
    { std::lock_guard<std::mutex> l(g_mu);
      if (--f->refs == 0) { if (f->in_map) g_files->erase(f->name); del = f; } }
    if (del) { if (del->fd >= 0) close(del->fd); delete del; }
}

FdbCounters& fdbm_counters() { return g_cnt; }

extern "C" {

fdb_config fdb_get_default_config(void) { fdb_config c; memset(&c, 0, sizeof c); c.blocksize = 4096; c.chunksize = 8; c.seqtree_opt = FDB_SEQTREE_NOT_USE; return c; }
fdb_kvs_config fdb_get_default_kvs_config(void) { fdb_kvs_config c; memset(&c, 0, sizeof c); c.create_if_missing = true; return c; }

static fdb_status doOpen(fdb_file_handle** out, const char* filename, fdb_config* cfg, fdb_custom_cmp_variable fn, void* param) {
    *out = nullptr;
    if (!filename || !cfg) return FDB_RESULT_INVALID_ARGS;
    std::lock_guard<std::mutex> l(g_mu);
    if (!g_files) g_files = new std::map<std::string, File*>();
    auto it = g_files->find(filename);
    File* f = nullptr;
    if (it != g_files->end()) {
        struct stat a, b;
        if (stat(filename, &a) == 0 && fstat(it->second->fd, &b) == 0 && a.st_ino == b.st_ino) f = it->second;
        else { it->second->in_map = false; g_files->erase(it); }
    }
    if (!f) {
        f = new File(); f->name = filename; f->seqtree = cfg->seqtree_opt == FDB_SEQTREE_USE;
        f->cmp.fn = fn; f->cmp.param = param;
        f->idx = new std::map<std::string, std::vector<Ver>, Cmp>(f->cmp);
        f->fd = open(filename, O_RDWR | O_CREAT, 0644);
        if (f->fd < 0) { int e = errno; delete f; return e == ENOENT ? FDB_RESULT_NO_SUCH_FILE : FDB_RESULT_OPEN_FAIL; }
        fdb_status s = loadFile(f);
        if (s != FDB_RESULT_SUCCESS) { close(f->fd); delete f; return s; }
        f->in_map = true; (*g_files)[filename] = f;
    }
    f->refs++; g_cnt.open_handles++;
    *out = new _fdb_file_handle{M_FH, f};
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_open(fdb_file_handle** ptr, const char* filename, fdb_config* cfg) { return doOpen(ptr, filename, cfg, nullptr, nullptr); }
fdb_status fdb_open_custom_cmp(fdb_file_handle** ptr, const char* filename, fdb_config* cfg, size_t n, char**, fdb_custom_cmp_variable* fns, void** params) {
    return doOpen(ptr, filename, cfg, n ? fns[0] : nullptr, n ? params[0] : nullptr);
}
fdb_status fdb_close(fdb_file_handle* fh) {
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_close"); fh->magic = M_DEAD;
    File* f = fh->f; delete fh; g_cnt.open_handles--;
    unref(f);
    return FDB_RESULT_SUCCESS;
}
static fdb_kvs_handle* newKvs(File* f, bool snap, uint64_t commit, uint64_t seq) {
    { std::lock_guard<std::mutex> l(g_mu); f->refs++; }
    if (snap) g_cnt.open_snaps++; else g_cnt.open_kvs++;
    return new _fdb_kvs_handle{M_KH, f, snap, commit, seq};
}
fdb_status fdb_kvs_open(fdb_file_handle* fh, fdb_kvs_handle** ptr, const char*, fdb_kvs_config*) {
    *ptr = nullptr;
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_kvs_open");
    *ptr = newKvs(fh->f, false, 0, 0);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_kvs_close"); h->magic = M_DEAD;
    if (h->snap) g_cnt.open_snaps--; else g_cnt.open_kvs--;
    File* f = h->f; delete h; unref(f);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_snapshot_open(fdb_kvs_handle* in, fdb_kvs_handle** out, fdb_seqnum_t seq) {
    *out = nullptr;
    if (!in) return FDB_RESULT_INVALID_HANDLE;
    chk(in->magic, M_KH, "fdb_snapshot_open");
    File* f = in->f; uint64_t found = 0;
    { std::lock_guard<std::mutex> l(f->mu);
      uint64_t top = in->snap ? in->commit : f->commits.size();
      for (uint64_t c = top; c >= 1; --c) {
          if (f->commits[c - 1].seq == seq) { found = c; break; }
          if (f->commits[c - 1].seq < seq) break;
      }
      if (!found && top == 0 && seq == 0) found = UINT64_MAX;   // nothing committed yet: empty view
    }
    if (!found) return FDB_RESULT_NO_DB_INSTANCE;
    *out = newKvs(f, true, found == UINT64_MAX ? 0 : found, seq);
    return FDB_RESULT_SUCCESS;
}
static fdb_status put(fdb_kvs_handle* h, fdb_doc* doc, bool del) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_set");
    if (h->snap) return FDB_RESULT_RONLY_VIOLATION;
    if (!doc || !doc->key || !doc->keylen || doc->keylen > 3968) return FDB_RESULT_INVALID_ARGS;
    File* f = h->f;
    std::lock_guard<std::mutex> l(f->mu);
    Doc* d = new Doc();
    d->key.assign((char*)doc->key, doc->keylen);
    if (doc->metalen) d->meta.assign((char*)doc->meta, doc->metalen);
    if (!del && doc->bodylen) d->body.assign((char*)doc->body, doc->bodylen);
    d->del = del;
    if (doc->flags & FDB_CUSTOM_SEQNUM) doc->flags &= ~FDB_CUSTOM_SEQNUM; else doc->seqnum = f->seq + 1;
    d->seq = doc->seqnum;
    size_t old = f->buf.size(); uint32_t oldchain = f->chain;
    appendRec(f, del ? RT_DEL : RT_DOC, d->seq, d->key, d->meta, d->body, d);
    if (f->buf.size() >= 4096 && flushBuf(f)) {
        f->buf.resize(old); f->chain = oldchain; delete d; return FDB_RESULT_WRITE_FAIL;
    }
    if (sim::verbose > 1) sim::dbg("fdb_set %s %s seq %lu del %d", f->name.c_str(), d->key.c_str(), d->seq, (int)del);
    if (d->seq > f->seq) f->seq = d->seq;
    f->byoff[d->off] = d; f->pending.push_back(d);
    doc->offset = d->off; doc->size_ondisk = d->len; doc->deleted = del;
    g_cnt.sets++;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, true); }

static uint64_t viewOf(fdb_kvs_handle* h) { return h->snap ? h->commit : h->f->commits.size(); }

static fdb_status getDoc(fdb_kvs_handle* h, fdb_doc* doc, bool body) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_get");
    if (!doc || !doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    File* f = h->f; std::string k((char*)doc->key, doc->keylen); const Doc* d = nullptr;
    { std::lock_guard<std::mutex> l(f->mu);
      auto it = f->idx->find(k);
      if (it != f->idx->end()) d = visible(it->second, viewOf(h)); }
    g_cnt.gets++;
    if (sim::verbose > 1) sim::dbg("fdb_get %s %s -> %d (view %lu idx %zu)", f->name.c_str(), k.c_str(), d ? 1 : 0, viewOf(h), f->idx->size());
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    fdb_status s = readBack(f, d); if (s != FDB_RESULT_SUCCESS) return s;
    fillDoc(doc, d, false, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc) { return getDoc(h, doc, true); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc) { return getDoc(h, doc, false); }

fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t keylen, fdb_doc* doc, fdb_get_nearest_opt_t opt) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_get_nearest");
    if (!key || !keylen) return FDB_RESULT_INVALID_ARGS;
    File* f = h->f; std::string k((const char*)key, keylen); const Doc* d = nullptr;
    { std::lock_guard<std::mutex> l(f->mu);
      uint64_t c = viewOf(h); auto& m = *f->idx;
      if (opt == FDB_GET_GREATER || opt == FDB_GET_GREATER_OR_EQUAL) {
          auto it = opt == FDB_GET_GREATER ? m.upper_bound(k) : m.lower_bound(k);
          for (; it != m.end(); ++it) if ((d = visible(it->second, c))) break;
      } else {
          auto it = opt == FDB_GET_SMALLER ? m.lower_bound(k) : m.upper_bound(k);
          while (it != m.begin()) { --it; if ((d = visible(it->second, c))) break; }
      } }
    g_cnt.gets++;
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    fdb_status s = readBack(f, d); if (s != FDB_RESULT_SUCCESS) return s;
    doc->key = nullptr; doc->meta = nullptr; doc->body = nullptr;
    fillDoc(doc, d, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_get_byoffset_raw");
    File* f = h->f; const Doc* d = nullptr;
    { std::lock_guard<std::mutex> l(f->mu);
      auto it = f->byoff.find(doc->offset); if (it != f->byoff.end()) d = it->second; }
    if (!d) return FDB_RESULT_READ_FAIL;
    fdb_status s = readBack(f, d); if (s != FDB_RESULT_SUCCESS) return s;
    fillDoc(doc, d, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_doc_free(fdb_doc* doc) {
    if (doc) { free(doc->key); free(doc->meta); free(doc->body); free(doc); }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_commit(fdb_file_handle* fh, fdb_commit_opt_t) {
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_commit");
    File* f = fh->f;
    std::lock_guard<std::mutex> l(f->mu);
    uint64_t off = endOff(f); size_t old = f->buf.size(); uint32_t oldchain = f->chain; uint64_t seq = f->seq;
    appendRec(f, RT_COMMIT, seq, "", "", "", nullptr);
    if (flushBuf(f)) { f->buf.resize(old); f->chain = oldchain; return FDB_RESULT_WRITE_FAIL; }
    if (fsync(f->fd)) return FDB_RESULT_FSYNC_FAIL;
    applyCommit(f, seq, off);
    if (sim::verbose > 1) sim::dbg("fdb_commit %s n %zu idx %zu", f->name.c_str(), f->commits.size(), f->idx->size());
    g_cnt.commits++;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* fh) {
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_sync_file");
    File* f = fh->f;
    std::lock_guard<std::mutex> l(f->mu);
    if (flushBuf(f)) return FDB_RESULT_WRITE_FAIL;
    if (fsync(f->fd)) return FDB_RESULT_FSYNC_FAIL;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_file_info(fdb_file_handle* fh, fdb_file_info* info) {
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_get_file_info");
    File* f = fh->f; memset(info, 0, sizeof *info);
    std::lock_guard<std::mutex> l(f->mu);
    info->filename = f->name.c_str(); info->doc_count = f->ndocs; info->space_used = f->live + f->ndocs * 32;
    info->file_size = endOff(f) + 4096; info->num_kv_stores = 1; info->num_live_nodes = f->ndocs / 32 + 1; info->sb_bmp_revnum = 0;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_get_kvs_info");
    File* f = h->f; memset(info, 0, sizeof *info);
    std::lock_guard<std::mutex> l(f->mu);
    info->last_seqnum = h->snap ? h->snap_seq : f->seq; info->doc_count = f->ndocs; info->space_used = f->live;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* seq) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_get_kvs_seqnum");
    std::lock_guard<std::mutex> l(h->f->mu);
    *seq = h->snap ? h->snap_seq : h->f->seq;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* fh, fdb_snapshot_info_t** out, uint64_t* num) {
    *out = nullptr; *num = 0;
    if (!fh) return FDB_RESULT_INVALID_HANDLE;
    chk(fh->magic, M_FH, "fdb_get_all_snap_markers");
    File* f = fh->f;
    std::lock_guard<std::mutex> l(f->mu);
    size_t n = f->commits.size();
    if (!n) return FDB_RESULT_NO_DB_INSTANCE;
    auto* m = (fdb_snapshot_info_t*)calloc(n, sizeof(fdb_snapshot_info_t));
    for (size_t i = 0; i < n; ++i) {
        auto& c = f->commits[n - 1 - i];
        m[i].marker = c.off; m[i].num_kvs_markers = 1;
        m[i].kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof(fdb_kvs_commit_marker_t));
        m[i].kvs_markers[0].seqnum = c.seq;
    }
    *out = m; *num = n;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t num) {
    if (!m) return FDB_RESULT_INVALID_ARGS;
    for (uint64_t i = 0; i < num; ++i) free(m[i].kvs_markers);
    free(m);
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* mink, size_t minl, const void* maxk, size_t maxl, fdb_iterator_opt_t opt) {
    *out = nullptr;
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_iterator_init");
    if (!(opt & FDB_ITR_NO_DELETES)) sim::harness_error("fdb model: iterator without NO_DELETES is not modelled");
    File* f = h->f;
    std::string lo((const char*)(minl ? mink : ""), minl), hi((const char*)(maxl ? maxk : ""), maxl);
    { std::lock_guard<std::mutex> l(g_mu); f->refs++; }
    auto* it = new _fdb_iterator{M_IT, f, false, new std::vector<const Doc*>(), 0, f->cmp};
    { std::lock_guard<std::mutex> l(f->mu);
      uint64_t c = viewOf(h); auto& m = *f->idx;
      auto e = minl ? m.lower_bound(lo) : m.begin();
      for (; e != m.end(); ++e) {
          if (maxl && f->cmp(hi, e->first)) break;
          if (minl && (opt & FDB_ITR_SKIP_MIN_KEY) && !f->cmp(lo, e->first)) continue;
          if (maxl && (opt & FDB_ITR_SKIP_MAX_KEY) && !f->cmp(e->first, hi)) break;
          const Doc* d = visible(e->second, c); if (d) it->v->push_back(d);
      } }
    g_cnt.open_itrs++;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out, fdb_seqnum_t mn, fdb_seqnum_t mx, fdb_iterator_opt_t) {
    *out = nullptr;
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_iterator_sequence_init");
    File* f = h->f;
    if (!f->seqtree) return FDB_RESULT_INVALID_CONFIG;
    if (mx && mn > mx) return FDB_RESULT_INVALID_ARGS;
    { std::lock_guard<std::mutex> l(g_mu); f->refs++; }
    auto* it = new _fdb_iterator{M_IT, f, true, new std::vector<const Doc*>(), 0, f->cmp};
    { std::lock_guard<std::mutex> l(f->mu);
      uint64_t c = viewOf(h);
      for (auto& e : *f->idx) { const Doc* d = visible(e.second, c); if (d && d->seq >= mn && (!mx || d->seq <= mx)) it->v->push_back(d); } }
    std::stable_sort(it->v->begin(), it->v->end(), [](const Doc* a, const Doc* b) { return a->seq != b->seq ? a->seq < b->seq : a->off < b->off; });
    // a sequence tree holds one document per sequence number: the latest written
    std::vector<const Doc*> u;
    for (auto* d : *it->v) { if (!u.empty() && u.back()->seq == d->seq) u.back() = d; else u.push_back(d); }
    *it->v = u;
    g_cnt.open_itrs++;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* key, size_t n, fdb_iterator_seek_opt_t opt) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_seek");
    std::string k((const char*)key, n); auto& v = *it->v; Cmp& cmp = it->cmp;
    long lo = 0; while (lo < (long)v.size() && cmp(v[lo]->key, k)) lo++;
    if (opt == FDB_ITR_SEEK_HIGHER) { if (lo >= (long)v.size()) return FDB_RESULT_ITERATOR_FAIL; it->pos = lo; }
    else { if (lo < (long)v.size() && !cmp(k, v[lo]->key)) it->pos = lo; else if (lo > 0) it->pos = lo - 1; else return FDB_RESULT_ITERATOR_FAIL; }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t s, fdb_iterator_seek_opt_t opt) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_seek_byseq");
    auto& v = *it->v;
    long lo = 0; while (lo < (long)v.size() && v[lo]->seq < s) lo++;
    if (opt == FDB_ITR_SEEK_HIGHER) { if (lo >= (long)v.size()) return FDB_RESULT_ITERATOR_FAIL; it->pos = lo; }
    else { if (lo < (long)v.size() && v[lo]->seq == s) it->pos = lo; else if (lo > 0) it->pos = lo - 1; else return FDB_RESULT_ITERATOR_FAIL; }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_seek_to_min");
    if (it->v->empty()) return FDB_RESULT_ITERATOR_FAIL;
    it->pos = 0; return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_seek_to_max");
    if (it->v->empty()) return FDB_RESULT_ITERATOR_FAIL;
    it->pos = (long)it->v->size() - 1; return FDB_RESULT_SUCCESS;
}
static fdb_status itGet(fdb_iterator* it, fdb_doc** doc, bool body) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_get");
    if (it->pos < 0 || it->pos >= (long)it->v->size()) return FDB_RESULT_ITERATOR_FAIL;
    const Doc* d = (*it->v)[it->pos];
    fdb_status s = readBack(it->f, d); if (s != FDB_RESULT_SUCCESS) return s;
    bool mine = false;
    if (!*doc) { *doc = (fdb_doc*)calloc(1, sizeof(fdb_doc)); mine = true; }
    (void)mine;
    fillDoc(*doc, d, true, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc) { return itGet(it, doc, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc) { return itGet(it, doc, false); }
fdb_status fdb_iterator_next(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_next");
    long n = it->v->size();
    if (it->pos < n) it->pos++;
    return it->pos < n ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_prev(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_prev");
    if (it->pos >= 0) it->pos--;
    return it->pos >= 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_close(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_HANDLE;
    chk(it->magic, M_IT, "fdb_iterator_close"); it->magic = M_DEAD;
    File* f = it->f; delete it->v; delete it; g_cnt.open_itrs--;
    unref(f);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_traverse_index(fdb_kvs_handle* h, const void* start, size_t n, fdb_index_traversal_callback cb, void* ctx) {
    if (!h) return FDB_RESULT_INVALID_HANDLE;
    chk(h->magic, M_KH, "fdb_traverse_index");
    File* f = h->f; std::vector<const Doc*> v; std::string lo((const char*)(n ? start : ""), n);
    { std::lock_guard<std::mutex> l(f->mu);
      uint64_t c = viewOf(h);
      for (auto e = n ? f->idx->lower_bound(lo) : f->idx->begin(); e != f->idx->end(); ++e) { const Doc* d = visible(e->second, c); if (d) v.push_back(d); } }
    for (auto* d : v) if (cb(h, (void*)d->key.data(), d->key.size(), d->off, ctx) != FDB_IT_NEXT) break;
    return FDB_RESULT_SUCCESS;
}
uint64_t fdb_get_buffer_cache_used(void) { return 0; }
void fdb_print_cache_stats(void) {}
fdb_status fdb_shutdown(void) { std::lock_guard<std::mutex> l(g_mu); if (g_files && g_files->empty()) { delete g_files; g_files = nullptr; } return FDB_RESULT_SUCCESS; }
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) { return FDB_RESULT_SUCCESS; }

} // extern "C"
