// Run orchestration interface between the driver (main.cc) and the worlds.
#pragma once
#include "rt.h"
#include "vfs.h"

namespace sim {

struct World {
    const char* name;
    size_t shared_size;                 // bytes of wsh the world uses (zeroed per run)
    void (*configure)();                // driver process, once per run: derive everything from (seed, prop)
    void (*plan)(int inc);              // driver process, before every incarnation: schedule and fault plan
    void (*body)();                     // child process, fiber 0
    int max_inc;
};
extern World* worlds[];

extern char* wsh;                       // world shared memory (survives crashes of the simulated process)
enum { WSH_SIZE = 48 << 20 };

struct Ctl {                            // shared control block of the run
    char prop[16];
    bool more;                          // child asks for another incarnation after a clean end
    int n_mask; uint64_t mask[20000];   // disabled program items (sorted), for minimisation
    uint64_t work;                      // operations executed by the program
    uint64_t note[8];
    uint64_t max_at_exit;
    char desc[600];                     // what this run does, for evidence samples
};
extern Ctl* ctl;
bool item_on(uint32_t group, uint32_t idx);   // program item enabled?
static inline bool prop_is(const char* p) { return __builtin_strcmp(ctl->prop, p) == 0; }

void default_sched(Rng& r, SchedCfg& sc);     // swarm-sampled scheduler settings
uint64_t rseed(uint64_t tag);                 // derived from the run seed

} // namespace sim
