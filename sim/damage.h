// Damages stored bytes of a database between two incarnations.
#pragma once
#include "run.h"
#include <string>
#include <vector>
#include <stdio.h>
#include <string.h>
namespace sim {
enum { DM_LOG = 1, DM_MANI = 2, DM_BAK = 4, DM_TMANI = 8, DM_TBAK = 16, DM_DMANI = 32, DM_DBAK = 64 };
static inline std::vector<std::string> dm_list(const std::string& dir) { static char buf[256][200]; int n = vfs_list(dir.c_str(), buf, 256); std::vector<std::string> v; for (int i = 0; i < n && i < 256; ++i) v.push_back(buf[i]); return v; }
static inline std::string dm_read(const std::string& f) { int64_t n = vfs_size(f.c_str()); if (n <= 0) return ""; std::string s((size_t)n, 0); vfs_read_all(f.c_str(), &s[0], s.size()); return s; }
static inline bool dm_match(const std::string& n, int cls) {
    size_t p = n.rfind('/'); std::string b = p == std::string::npos ? n : n.substr(p + 1);
    bool bak = b.size() > 4 && b.substr(b.size() - 4) == ".bak", man = b.find("manifest") != std::string::npos, log = b.compare(0, 3, "log") == 0, tab = b.compare(0, 5, "table") == 0;
    if (b == "db_manifest") return cls & DM_DMANI; if (b == "db_manifest.bak") return cls & DM_DBAK;
    if (log && !man && !bak) return cls & DM_LOG; if (log && man && !bak) return cls & DM_MANI; if (log && man && bak) return cls & DM_BAK; if (tab && man && !bak) return cls & DM_TMANI; if (tab && man && bak) return cls & DM_TBAK; return false;
}
struct DmgAt { std::string file; size_t at; };
static inline void damage(Rng& r, const std::string& dir, int cls, char* out, size_t n, std::vector<DmgAt>* where = nullptr) {
    std::vector<std::string> all = dm_list(dir), f; for (auto& x : all) if (dm_match(x, cls)) f.push_back(x);
    size_t o = snprintf(out, n, " (damaged:"); int cnt = r.onein(3) ? r.range(1, 4) : 1; if (f.empty()) return;
    for (int i = 0; i < cnt; ++i) { std::string p = f[r.below(f.size())]; std::string full = p[0] == '/' ? p : dir + "/" + p; std::string d = dm_read(full); size_t sz = d.size(); int kind = r.below(6); size_t at = sz ? r.below(sz) : 0, len = sz ? 1 + r.below(std::min<size_t>(sz - at, r.onein(2) ? 4 : 600)) : 0;
        switch (kind) {
        case 0: if (sz) { char ch = d[at] ^ (1 << r.below(8)); vfs_poke(full.c_str(), at, &ch, 1); } break;
        case 1: if (sz) { std::string z(len, 0); vfs_poke(full.c_str(), at, z.data(), len); } break;
        case 2: vfs_cut(full.c_str(), at); break;
        case 3: if (sz) { std::string z(len, 0); for (auto& ch : z) ch = r.next(); vfs_poke(full.c_str(), at, z.data(), len); } break;
        case 4: { std::string z(1 + r.below(300), 0); if (r.onein(2)) for (auto& ch : z) ch = r.next(); at = sz; len = z.size(); vfs_poke(full.c_str(), at, z.data(), len); break; }
        default: if (sz > 1) { size_t from = r.below(sz); size_t l = std::min(len, sz - from); std::string z = d.substr(from, l); vfs_poke(full.c_str(), at, z.data(), std::min(l, sz - at)); } break; }
        if (where && kind != 5) where->push_back(DmgAt{full, at}); if (where && kind == 5) where->push_back(DmgAt{full, 0});
        if (o < n) o += snprintf(out + o, n - o, " %s kind %d at %zu+%zu of %zu", p.c_str(), kind, at, len, sz); }
    if (o < n) snprintf(out + o, n - o, ")");
}
}
