// Simulated disk.
#pragma once
#include <stdint.h>
#include <stddef.h>
namespace sim {
void vfs_init();                 // once per process
void vfs_reset();                // start of a run
void vfs_start_incarnation();    // in the child: no open descriptors
void vfs_crash_transform();
uint32_t vfs_classify(const char* path);
// harness access (no faults, no crash, not counted)
bool vfs_exists(const char* path);
int64_t vfs_size(const char* path);
int64_t vfs_durable_size(const char* path);
int64_t vfs_read_all(const char* path, void* buf, size_t cap);
bool vfs_poke(const char* path, uint64_t off, const void* data, size_t n);   // cur and durable
bool vfs_put(const char* path, const void* data, size_t n);                  // create durable
bool vfs_cut(const char* path, uint64_t newsize);
bool vfs_remove(const char* path);
int vfs_list(const char* dir, char (*out)[200], int cap);
void vfs_sync_all();
int vfs_open_fds(const char* prefix);
uint64_t vfs_tree_hash(const char* prefix);
struct VfsStat { uint64_t files, pages_used, torn_files, lost_sectors, kept_sectors, lost_meta; };
VfsStat& vfs_stat();
void vfs_mkdir(const char* path);
void vfs_fail_archives(int every);        // every n-th archive command of the shell fails half way (0: none)
void vfs_set_capacity(uint64_t bytes);   // 0 = unlimited; writes beyond give ENOSPC
}
