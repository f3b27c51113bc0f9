#include "../run.h"
#include <libjungle/jungle.h>
using namespace sim; using namespace jungle;
static void cfg() {}
static void plan(int inc) { Rng r(rseed(1)); default_sched(r, sh->sc); }
static void body() {
    DB* db = nullptr; GlobalConfig g; jungle::init(g);
    DBConfig c; c.lookupBoosterLimit_mb = {0,0};  Status s = DB::open(&db, "/sim/db", c);
    if (!s) violation("open", "open failed %d", (int)s.getValue());
    for (int i = 0; i < 50; ++i) { KV kv; std::string k = "k" + std::to_string(i), v = "v" + std::to_string(i);
        s = db->set(KV(SizedBuf(k), SizedBuf(v))); if (!s) violation("set", "%d", (int)s.getValue()); }
    s = db->sync(false); if (!s) violation("sync", "%d", (int)s.getValue());
    for (int i = 0; i < 50; ++i) { std::string k = "k" + std::to_string(i), v = "v" + std::to_string(i); SizedBuf o;
        s = db->get(SizedBuf(k), o); if (!s || o.toString() != v) violation("get", "%d %s", (int)s.getValue(), o.toString().c_str()); o.free(); }
    s = db->flushLogs(FlushOptions()); if (!s) violation("flush", "%d", (int)s.getValue());
    for (int i = 0; i < 50; ++i) { std::string k = "k" + std::to_string(i), v = "v" + std::to_string(i); SizedBuf o;
        s = db->get(SizedBuf(k), o); if (!s || o.toString() != v) violation("get", "%d %s", (int)s.getValue(), o.toString().c_str()); o.free(); }
    for (int i = 0; i < 4; ++i) { s = db->compactL0(CompactOptions(), i); dbg("compact %d -> %d", i, (int)s.getValue()); }
    for (int i = 0; i < 50; ++i) { std::string k = "k" + std::to_string(i), v = "v" + std::to_string(i); SizedBuf o;
        s = db->get(SizedBuf(k), o); if (!s || o.toString() != v) violation("get", "%d %s", (int)s.getValue(), o.toString().c_str()); o.free(); }
    s = DB::close(db); if (!s) violation("close", "%d", (int)s.getValue());
    s = shutdown(); if (!s) violation("shutdown", "%d", (int)s.getValue());
}
sim::World world_trivial = { "trivial", 4096, cfg, plan, body, 1 };

