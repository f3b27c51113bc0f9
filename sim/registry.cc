#include "run.h"
extern sim::World world_kv, world_trivial, world_skiplist, world_fileops, world_workers, world_logger, world_logstore;
namespace sim { World* worlds[] = { &world_trivial, &world_skiplist, &world_fileops, &world_kv, &world_workers, &world_logger, &world_logstore, nullptr }; }
