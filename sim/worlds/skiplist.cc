// C15: the concurrent ordered index (src/skiplist.cc) under arbitrary interleavings.
#include "../run.h"
#include "../lin.h"
#include <skiplist.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <thread>
#include <vector>
using namespace sim;
namespace {
enum { MAXK = 14, MAXC = 5, MAXOP = 24, MAXH = 400 };
enum OpT : uint8_t { INS, ERASE, ERASEQ, FIND, GE, SE, SCAN, RSCAN, WALK, H_NEXT, H_PREV, H_BEGIN, H_END, H_LAST };
struct Prog { uint8_t type, key, n; uint32_t salt; };
struct Hist { uint8_t type, key; int16_t node_in, node_out; int16_t ret; uint8_t client; uint64_t inv, rt; };
struct W {
    int nc, nk, nop[MAXC], mode, fanout, maxlayer, prepop, weights[9];
    Prog prog[MAXC][MAXOP];
    int nh; Hist h[MAXH];
};
W& w() { return *(W*)wsh; }
struct Item { skiplist_node sn; int key; int id; uint64_t canary; };
skiplist_raw* sl; int next_id;
std::vector<Item*>* graveyard;

int cmp(skiplist_node* a, skiplist_node* b, void*) {
    Item* x = _get_entry(a, Item, sn); Item* y = _get_entry(b, Item, sn);
    return x->key < y->key ? -1 : x->key > y->key ? 1 : 0;
}
Item* mk(int key) { NoPreempt np; Item* i = new Item(); skiplist_init_node(&i->sn); i->key = key; i->id = ++next_id; i->canary = 0xabcdef; return i; }
void kill_item(Item* i) { skiplist_free_node(&i->sn); i->canary = 0; delete i; }
Item* it(skiplist_node* n) { return n ? _get_entry(n, Item, sn) : nullptr; }

struct Rec {
    Hist hh; 
    Rec(int c, int type, int key, int node_in) { memset(&hh, 0, sizeof hh); hh.client = c; hh.type = type; hh.key = key; hh.node_in = node_in; hh.inv = stamp(); }
    void done(int ret, Item* out) {
        int id = 0;
        if (out) { if (out->canary != 0xabcdef) violation("sl-garbage", "operation %d on key %d returned a node that is not an element", hh.type, hh.key); id = out->id; }
        NoPreempt np; hh.rt = stamp(); hh.ret = ret; hh.node_out = id;
        if (w().nh >= MAXH) harness_error("history full"); w().h[w().nh++] = hh; dbg("c%d t%d key%d in%d out%d ret%d", hh.client, hh.type, hh.key, hh.node_in, hh.node_out, hh.ret); hash_event(hh.ret * 77 + hh.node_out);
        ctl->work++;
    }
};
void configure() {
    Rng r(rseed(11)); W& x = w(); memset(&x, 0, sizeof x);
    x.nc = r.range(2, MAXC); x.nk = r.range(2, r.onein(2) ? 4 : 12); x.mode = r.onein(6) ? 1 : r.onein(6) ? 2 : 0;  // 0 nodup+free, 1 nodup, erase by query, no free, 2 duplicates
    static const int fo[] = { 2, 2, 4, 8 }; x.fanout = r.pick(fo); x.maxlayer = r.range(3, 12);
    x.prepop = r.onein(4) ? 0 : r.range(0, x.nk);
    for (int i = 0; i < 9; ++i) x.weights[i] = r.onein(3) ? 0 : r.range(1, 6);
    x.weights[INS] = r.range(2, 6); x.weights[ERASE] = r.range(1, 6);
    int tot = x.nc > 3 ? 8 : 14;
    for (int c = 0; c < x.nc; ++c) {
        x.nop[c] = r.range(2, tot);
        for (int i = 0; i < x.nop[c]; ++i) {
            int s = 0; for (int k = 0; k < 9; ++k) s += x.weights[k];
            int v = r.below(s), t = 0; while (v >= x.weights[t]) v -= x.weights[t++];
            Prog& p = x.prog[c][i]; p.type = t; p.key = 1 + r.below(x.nk); p.n = r.range(1, 5); p.salt = r.next();
        }
    }
}
void plan(int) {
    Rng r(rseed(1)); default_sched(r, sh->sc);
    static const double pm[] = { 0, 1e-3, 5e-3, 0.02, 0.08 }, ps[] = { 0.01, 0.05, 0.2, 0.5 };
    sh->sc.p_mem = r.pick(pm); sh->sc.p_sync = r.pick(ps);
    static const int pl[] = { 200, 1000, 5000, 20000 }; sh->sc.pct_len = r.pick(pl); sh->sc.quantum = 300; 
    static const int ms[] = { 5, 20, 100, 1000 }; sh->sc.max_stall = r.pick(ms); sh->sc.max_sync = 400000; sh->sc.p_tstall = 0;
}
void do_scan(int c, Prog& p, bool rev) {
    Rec b(c, rev ? H_END : H_BEGIN, 0, 0);
    skiplist_node* cur = rev ? skiplist_end(sl) : skiplist_begin(sl); b.done(0, it(cur));
    for (int i = 0; cur && i < p.n; ++i) {
        Rec n(c, rev ? H_PREV : H_NEXT, it(cur)->key, it(cur)->id);
        skiplist_node* nx = rev ? skiplist_prev(sl, cur) : skiplist_next(sl, cur);
        n.done(0, it(nx)); skiplist_release_node(cur); cur = nx;
    }
    if (cur) skiplist_release_node(cur);
}
void client(int c) {
    char nm[16]; snprintf(nm, sizeof nm, "client%d", c); set_name(nm);
    W& x = w(); Item q; 
    for (int i = 0; i < x.nop[c]; ++i) {
        if (!item_on(c, i)) continue;
        Prog& p = x.prog[c][i];
        skiplist_init_node(&q.sn); q.key = p.key; q.id = -1; q.canary = 0;
        switch (p.type) {
        case INS: {
            Item* n = mk(p.key); Rec r(c, INS, p.key, n->id);
            int ret = x.mode == 2 ? skiplist_insert(sl, &n->sn) : skiplist_insert_nodup(sl, &n->sn); r.done(ret, nullptr);
            if (ret != 0) kill_item(n); break; }
        case ERASE: {
            Rec f(c, FIND, p.key, 0); skiplist_node* n = skiplist_find(sl, &q.sn); f.done(0, it(n));
            if (!n) break;
            Rec r(c, ERASE, p.key, it(n)->id);
            int ret = skiplist_erase_node(sl, n); r.done(ret, nullptr);
            skiplist_release_node(n);
            if (ret == 0) { if (x.mode != 1) { skiplist_wait_for_free(n); kill_item(it(n)); } else { NoPreempt np; graveyard->push_back(it(n)); } }
            break; }
        case ERASEQ: {
            if (x.mode != 1) { Rec f(c, FIND, p.key, 0); skiplist_node* n = skiplist_find(sl, &q.sn); f.done(0, it(n)); if (n) skiplist_release_node(n); break; }
            Rec r(c, ERASEQ, p.key, 0); int ret = skiplist_erase(sl, &q.sn); r.done(ret, nullptr); break; }
        case FIND: case GE: case SE: {
            Rec r(c, p.type, p.key, 0);
            skiplist_node* n = p.type == FIND ? skiplist_find(sl, &q.sn) : p.type == GE ? skiplist_find_greater_or_equal(sl, &q.sn) : skiplist_find_smaller_or_equal(sl, &q.sn);
            r.done(0, it(n)); if (n) skiplist_release_node(n); break; }
        case SCAN: do_scan(c, p, false); break;
        case RSCAN: do_scan(c, p, true); break;
        case WALK: {
            Rec r(c, GE, p.key, 0); skiplist_node* cur = skiplist_find_greater_or_equal(sl, &q.sn); r.done(0, it(cur));
            for (int k = 0; cur && k < p.n; ++k) {
                bool fw = (p.salt >> k) & 1; Rec n(c, fw ? H_NEXT : H_PREV, it(cur)->key, it(cur)->id);
                skiplist_node* nx = fw ? skiplist_next(sl, cur) : skiplist_prev(sl, cur); n.done(0, it(nx));
                skiplist_release_node(cur); cur = nx;
            }
            if (cur) skiplist_release_node(cur); break; }
        }
    }
}
// ---- model: one node id per key
struct St { int16_t node[16]; };
bool apply(void* s, const void* o) {
    St* st = (St*)s; const Hist* h = (const Hist*)o; int nk = w().nk; int k = h->key;
    auto ge = [&](int from) { for (int i = from; i <= nk; ++i) if (st->node[i]) return (int)st->node[i]; return 0; };
    auto le = [&](int from) { for (int i = from; i >= 1; --i) if (st->node[i]) return (int)st->node[i]; return 0; };
    switch (h->type) {
    case INS: if (h->ret == 0) { if (st->node[k]) return false; st->node[k] = h->node_in; return true; } return h->ret == -1 && st->node[k] != 0;
    case ERASE: if (h->ret == 0) { if (st->node[k] != h->node_in) return false; st->node[k] = 0; return true; } return true;
    case ERASEQ: if (h->ret == 0) { if (!st->node[k]) return false; st->node[k] = 0; return true; } return h->ret == -4 ? st->node[k] == 0 : true;
    case FIND: return st->node[k] == h->node_out;
    case GE: return ge(k) == h->node_out;
    case SE: return le(k) == h->node_out;
    case H_NEXT: return ge(k + 1) == h->node_out;
    case H_PREV: return le(k - 1) == h->node_out;
    case H_BEGIN: return ge(1) == h->node_out;
    case H_END: return le(nk) == h->node_out;
    }
    return false;
}
void body() {
    W& x = w(); dbg("mode %d nc %d nk %d fanout %d maxlayer %d prepop %d", x.mode, x.nc, x.nk, x.fanout, x.maxlayer, x.prepop); sl = new skiplist_raw(); skiplist_init(sl, cmp); next_id = 0; graveyard = new std::vector<Item*>();
    skiplist_raw_config cf = skiplist_get_config(sl); cf.fanout = x.fanout; cf.maxLayer = x.maxlayer; skiplist_set_config(sl, cf);
    for (int k = 1; k <= x.prepop; ++k) { Item* n = mk(k); Rec r(MAXC, INS, k, n->id); int ret = skiplist_insert(sl, &n->sn); r.done(ret, nullptr); }
    std::vector<std::thread> t;
    for (int c = 0; c < x.nc; ++c) t.emplace_back(client, c);
    for (auto& e : t) e.join();
    // final pass by a fresh client: full forward and backward traversal
    std::vector<Item*> fin;
    { Prog p; p.n = 100; do_scan(MAXC, p, false); do_scan(MAXC, p, true); }
    for (skiplist_node* n = skiplist_begin(sl); n;) { fin.push_back(it(n)); skiplist_node* nx = skiplist_next(sl, n); skiplist_release_node(n); n = nx; }
    if (fin.size() != skiplist_get_size(sl)) violation("sl-size", "list reports %zu elements, traversal finds %zu", skiplist_get_size(sl), fin.size());
    {
        NoPreempt np;
        if (x.mode == 2) {      // duplicates: multiset of successfully inserted minus erased
            static uint8_t alive[1024]; memset(alive, 0, sizeof alive);
            for (int i = 0; i < x.nh; ++i) { Hist& h = x.h[i]; if (h.type == INS && h.ret == 0) alive[h.node_in] |= 1; if (h.type == ERASE && h.ret == 0) { if (alive[h.node_in] & 2) violation("sl-dup-erase", "node %d erased twice", h.node_in); alive[h.node_in] |= 2; } 
                if (h.type == INS && h.ret != 0) violation("sl-insert", "plain insert returned %d", h.ret); }
            int prev = -1;
            for (auto* f : fin) { if (f->key < prev) violation("sl-order", "traversal out of order: key %d after %d", f->key, prev); prev = f->key; if (alive[f->id] & 4) violation("sl-dup", "node %d (key %d) reached twice", f->id, f->key); if (!(alive[f->id] & 1)) violation("sl-phantom", "node %d was never inserted", f->id); if (alive[f->id] & 2) violation("sl-resurrect", "erased node %d still linked", f->id); alive[f->id] |= 4; }
            for (int i = 0; i < 1024; ++i) if ((alive[i] & 3) == 1 && !(alive[i] & 4)) violation("sl-lost", "inserted node %d is not reachable", i);
        } else {
            static LinOp ops[MAXH]; for (int i = 0; i < x.nh; ++i) ops[i] = { x.h[i].client, x.h[i].inv, x.h[i].rt, &x.h[i] };
            // failed erases (someone else is erasing) must overlap or follow a successful erase of that node
            for (int i = 0; i < x.nh; ++i) if (x.h[i].type == ERASE && x.h[i].ret != 0) {
                bool ok = false; for (int j = 0; j < x.nh; ++j) if (x.h[j].type == ERASE && x.h[j].ret == 0 && x.h[j].node_in == x.h[i].node_in && x.h[j].inv < x.h[i].rt) ok = true;
                for (int j = 0; j < x.nh; ++j) if (x.h[j].type == ERASEQ && x.h[j].ret == 0 && x.h[j].key == x.h[i].key && x.h[j].inv < x.h[i].rt) ok = true;
                if (!ok) violation("sl-erase-fail", "erase of a present node %d (key %d) returned %d", x.h[i].node_in, x.h[i].key, x.h[i].ret); }
            St init; memset(&init, 0, sizeof init);
            int res = linearize(ops, x.nh, sizeof(St), &init, apply, 300000);
            if (res < 0) SIM_PROBE("sl_lin_budget"); else SIM_PROBE("sl_lin_checked");
            if (res == 0) {
                static char b[2600]; int n = 0; for (int i = 0; i < x.nh && n < 2500; ++i) n += snprintf(b + n, sizeof b - n, "c%d:t%d k%d in%d out%d r%d[%llu,%llu] ", x.h[i].client, x.h[i].type, x.h[i].key, x.h[i].node_in, x.h[i].node_out, x.h[i].ret, (unsigned long long)x.h[i].inv, (unsigned long long)x.h[i].rt);
                violation("sl-linearizability", "history of %d operations has no legal order: %s", x.nh, b);
            }
        }
    }
    for (auto* f : fin) { int ret = skiplist_erase_node(sl, &f->sn); if (ret != 0) violation("sl-final-erase", "quiescent erase returned %d", ret); if (!skiplist_is_safe_to_free(&f->sn)) violation("sl-pinned", "node %d (key %d) is still pinned although nobody holds it", f->id, f->key); kill_item(f); }
    if (skiplist_get_size(sl) != 0) violation("sl-size", "list not empty after erasing everything");
    if (skiplist_begin(sl)) violation("sl-nonempty", "list not empty after erasing everything");
    skiplist_free(sl);
}
}
sim::World world_skiplist = { "skiplist", sizeof(W), configure, plan, body, 1 };
