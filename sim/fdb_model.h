#pragma once
#include <stdint.h>
struct FdbCounters { int64_t open_handles, open_kvs, open_snaps, open_itrs; uint64_t sets, gets, commits; };
FdbCounters& fdbm_counters();
