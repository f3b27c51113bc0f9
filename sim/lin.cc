#include "lin.h"
#include "rt.h"
#include <string.h>
#include <stdlib.h>
#include <vector>
#include <unordered_set>
#include <algorithm>
namespace sim {
namespace {
struct Ctx {
    std::vector<std::vector<LinOp>> cl;
    std::vector<int> ptr;
    size_t ssz; bool (*apply)(void*, const void*);
    std::unordered_set<uint64_t> seen; uint64_t budget; uint64_t steps = 0; int left;
    uint64_t key(const char* st) {
        uint64_t h = 0x12345; for (int p : ptr) h = mix2(h, p);
        for (size_t i = 0; i < ssz; i += 8) { uint64_t w = 0; memcpy(&w, st + i, std::min<size_t>(8, ssz - i)); h = mix2(h, w); }
        return h;
    }
    int go(const char* st) {
        if (left == 0) return 1;
        if (++steps > budget) return -1;
        if (!seen.insert(key(st)).second) return 0;
        uint64_t minret = ~0ull;
        for (size_t c = 0; c < cl.size(); ++c) if (ptr[c] < (int)cl[c].size()) minret = std::min(minret, cl[c][ptr[c]].ret);
        char ns[256];
        for (size_t c = 0; c < cl.size(); ++c) {
            if (ptr[c] >= (int)cl[c].size()) continue;
            const LinOp& o = cl[c][ptr[c]];
            if (o.inv > minret) continue;
            memcpy(ns, st, ssz);
            if (!apply(ns, o.d)) continue;
            ptr[c]++; if (o.ret != ~0ull) left--;
            int r = go(ns);
            ptr[c]--; if (o.ret != ~0ull) left++;
            if (r != 0) return r;
        }
        return 0;
    }
};
}
int linearize(const LinOp* ops, int n, size_t ssz, const void* init, bool (*apply)(void*, const void*), uint64_t budget) {
    Ctx c; c.ssz = ssz; c.apply = apply; c.budget = budget; c.left = 0;
    int maxc = 0; for (int i = 0; i < n; ++i) maxc = std::max(maxc, ops[i].client);
    c.cl.resize(maxc + 1);
    for (int i = 0; i < n; ++i) {
        if (ops[i].ret == ~0ull) { c.cl.emplace_back(1, ops[i]); continue; }   // own pseudo-client
        c.cl[ops[i].client].push_back(ops[i]); c.left++;
    }
    for (auto& v : c.cl) std::sort(v.begin(), v.end(), [](const LinOp& a, const LinOp& b) { return a.inv < b.inv; });
    c.ptr.assign(c.cl.size(), 0);
    char st[256]; memcpy(st, init, ssz);
    return c.go(st);
}
}
