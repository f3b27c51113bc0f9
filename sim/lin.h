// Linearizability search (Wing & Gong with memoisation), uninstrumented.
#pragma once
#include <stdint.h>
#include <stddef.h>
namespace sim {
struct LinOp { int client; uint64_t inv, ret; const void* d; };   // ret == ~0: may or may not have taken effect
// 1 linearizable, 0 not, -1 search budget exceeded. State is a flat blob of ssz (<= 256) bytes.
int linearize(const LinOp* ops, int n, size_t ssz, const void* init, bool (*apply)(void* st, const void* op), uint64_t budget);
}
