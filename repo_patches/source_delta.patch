From 47377d4e025f23f1ad62ffc63c93cb753f882e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:21 +0000
Subject: [PATCH 001/110] fix: skiplist erase must start from the top layer of
 the node to erase

slist->top_layer is updated after a new node is linked (and racily), so it can
be lower than the node's own top layer. Erasing such a node skipped its upper
layers and then used uninitialized predecessor pointers.
---
 src/skiplist.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..e080f82 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -740,7 +740,10 @@ erase_node_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
+    // NOTE: `slist->top_layer` is updated after the node is linked, so that
+    //       it can be lower than the top layer of the node to erase.
     int cur_layer = slist->top_layer;
+    if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_( history[nh++] = cur_node );
-- 
2.43.0


From 9c7a64254006f4448ac653ccea8ff3679e1e8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:59 +0000
Subject: [PATCH 002/110] fix: skiplist_next could return the given node itself

When the next node is being modified, skiplist_next fell back to a 'greater
than' search whose comparison accepted the node itself, so that iteration
returned the same element twice. Retry while the node is still linked, and
make the 'greater than' search strict.
---
 src/skiplist.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index e080f82..6921bd6 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -629,8 +629,9 @@ find_retry:
                 goto find_retry;
             }
             cmp = _sl_cmp(slist, query, next_node);
-            if (cmp > 0) {
+            if (cmp > 0 || (cmp == 0 && mode == GT)) {
                 // cur_node < next_node < query
+                //   (or next_node == query, in `GT` mode)
                 // => move to next node
                 skiplist_node* temp = cur_node;
                 cur_node = next_node;
@@ -976,8 +977,15 @@ skiplist_node* skiplist_next(skiplist_raw *slist,
     // In this case, start over from the top layer,
     // to find valid link (same as in prev()).
 
-    skiplist_node *next = _sl_next(slist, node, 0, NULL, NULL);
-    if (!next) next = _sl_find(slist, node, GT);
+    skiplist_node *next = NULL;
+    while (!(next = _sl_next(slist, node, 0, NULL, NULL))) {
+        if (!_sl_valid_node(node)) {
+            next = _sl_find(slist, node, GT);
+            break;
+        }
+        // `node` is still linked, its next node is being modified: retry.
+        YIELD();
+    }
 
     if (next == &slist->tail) return NULL;
     return next;
-- 
2.43.0


From d51e2d3b4e03e0a40f418920290c65c1a907b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:54 +0000
Subject: [PATCH 003/110] fix: skiplist erase should not clear the removed flag
 of a removed node

If a removal by another thread completes between the check of 'removed' and
the CAS on 'being_modified', the flag was set back to false so that
skiplist_wait_for_free() of the other thread never returned.
---
 src/skiplist.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 6921bd6..13e353e 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -718,6 +718,15 @@ int skiplist_erase_node_passive(skiplist_raw *slist,
         return -2;
     }
 
+    // Other thread may have completed the removal after the check above:
+    // `removed` flag should not be touched in that case, otherwise
+    // the node will never be considered as safe to free.
+    ATM_LOAD(node->removed, removed);
+    if (removed) {
+        ATM_STORE(node->being_modified, bool_false);
+        return -1;
+    }
+
     // set removed flag first, so that reader cannot read this node.
     ATM_STORE(node->removed, bool_true);
 
-- 
2.43.0


From 1ee2a4a416a1014c28d09e7c140696ceb3eda033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:33 +0000
Subject: [PATCH 004/110] fix: skiplist should hold the next node while
 validating it

The reference of the next node was released before its validity check, so that
the node could be erased and freed by another thread in between.
---
 src/skiplist.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 13e353e..f77d22f 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -455,13 +455,13 @@ insert_retry:
                 cur_node = next_node;
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node < node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node < node <= next_node
+            // NOTE: keep holding `next_node` while it is being validated.
 
             if (no_dup && cmp == 0) {
                 // Duplicate key is not allowed.
+                ATM_FETCH_SUB(next_node->ref_count, 1);
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
                 return -1;
@@ -497,6 +497,7 @@ insert_retry:
                     !_sl_valid_prev_next(prevs[cur_layer], nexts[cur_layer])) {
                     error_code = -2;
                 }
+                ATM_FETCH_SUB(next_node->ref_count, 1);
 
                 if (error_code != 0) {
                     __SLD_RT_INS(error_code, node, top_layer, cur_layer);
@@ -522,6 +523,8 @@ insert_retry:
                     YIELD();
                     goto insert_retry;
                 }
+            } else {
+                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
 
             if (cur_layer) {
@@ -787,10 +790,9 @@ erase_node_retry:
                 } )
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node <= node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node <= node <= next_node
+            // NOTE: keep holding `next_node` while it is being validated.
 
             if (cur_layer <= top_layer) {
                 prevs[cur_layer] = cur_node;
@@ -821,6 +823,7 @@ erase_node_retry:
                     !_sl_valid_prev_next(prevs[cur_layer], nexts[cur_layer])) {
                     error_code = -2;
                 }
+                ATM_FETCH_SUB(next_node->ref_count, 1);
 
                 if (error_code != 0) {
                     __SLD_RT_RMV(error_code, node, top_layer, cur_layer);
@@ -841,6 +844,8 @@ erase_node_retry:
                     YIELD();
                     goto erase_node_retry;
                 }
+            } else {
+                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
             if (cur_layer == 0) found_node_to_erase = true;
             // go down
-- 
2.43.0


From 7d77758822f1035b1bf529e8f7292b11cb4d8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:48 +0000
Subject: [PATCH 005/110] fix: skiplist should not skip a node whose insertion
 just completed

When a reader met a node that is linked but not fully linked yet, it waited for
the insertion to finish and then moved past the node, so that a lookup could
return a later inserted neighbor while missing the completed one.
---
 src/skiplist.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index f77d22f..4391c16 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -347,6 +347,12 @@ static inline skiplist_node* _sl_next(skiplist_raw* slist,
                 next_node = NULL;
                 break;
             }
+            if (temp != node_to_find) {
+                // Insertion of `temp` has been completed in the meantime,
+                // it should not be skipped.
+                _sl_read_unlock_an(temp);
+                break;
+            }
             ATM_LOAD(temp->next[layer], next_node);
             ATM_FETCH_ADD(next_node->ref_count, 1);
             nodes[num_nodes++] = temp;
-- 
2.43.0


From ab6f47d11169b6c150ca7b1b9f345df5e6479bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:26 +0000
Subject: [PATCH 006/110] fix: direct IO read buffer should fit the instance
 using it

---
 src/fileops_directio.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..e8ef242 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -73,14 +73,19 @@ public:
 };
 
 struct AlignedMemoryHolder {
-    explicit AlignedMemoryHolder(void* _bufPtr) : bufPtr(_bufPtr) {}
-    ~AlignedMemoryHolder() {
+    AlignedMemoryHolder() : bufPtr(nullptr), bufferSize(0), alignSize(0) {}
+    ~AlignedMemoryHolder() { reset(nullptr, 0, 0); }
+    void reset(void* buf, size_t buffer_size, size_t align_size) {
         if (bufPtr) {
             free(bufPtr);
-            bufPtr = nullptr;
         }
+        bufPtr = buf;
+        bufferSize = buffer_size;
+        alignSize = align_size;
     }
     void* bufPtr;
+    size_t bufferSize;
+    size_t alignSize;
 };
 
 static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
@@ -287,16 +292,22 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     auto file_size = static_cast<size_t>(file_size_tmp);
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
-    // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
-
     Status s;
+
+    // Aligned buffer to direct read.
+    // Note that this buffer is shared by all instances used by this thread,
+    // whose buffer size and align size can be different from each other.
+    thread_local AlignedMemoryHolder buf_holder;
+    if ( !buf_holder.bufPtr ||
+         buf_holder.bufferSize < bufferSize ||
+         buf_holder.alignSize % alignSize != 0 ) {
+        void* new_buf = nullptr;
+        EP(allocAlignedBuf(&new_buf));
+        buf_holder.reset(new_buf, bufferSize, alignSize);
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
+
     size_t aligned_file_offset = offset;
     size_t need_align = offset % alignSize;
     if (need_align > 0) {
-- 
2.43.0


From 0cc01b08768bc563686d0605bd6870260804b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:26 +0000
Subject: [PATCH 007/110] fix: direct IO flush should allow padding to use the
 reserved alignment

---
 src/fileops_directio.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index e8ef242..52089ef 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -475,7 +475,8 @@ Status FileOpsDirectIO::flush(FileHandle* fhandle) {
                       0,
                       offset);
     }
-    assert(aligned_pos > 0 && aligned_pos <= bufferSize);
+    // One more alignment is reserved for padding, refer to `allocAlignedBuf()`.
+    assert(aligned_pos > 0 && aligned_pos <= bufferSize + alignSize);
 
     size_t num_tries = 0;
     size_t sleep_time_us = 1;
-- 
2.43.0


From 015cb2820e1b79fb6f947bf33dbd2e829452e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:26 +0000
Subject: [PATCH 008/110] fix: direct IO append should retry a full buffer
 whose write failed

---
 src/fileops_directio.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 52089ef..10713f3 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -381,7 +381,9 @@ Status FileOpsDirectIO::append(FileHandle* fhandle,
         size_t left_source_size = count - source_pos;
         size_t slice = std::min(left_source_size, write_buf_size);
 
-        assert(slice > 0 && slice <= bufferSize);
+        // NOTE: `slice` can be 0 if the previous write of this buffer failed,
+        //       in such a case we should retry writing it first.
+        assert(slice <= bufferSize);
         memcpy(phandle->bufCharPtr + phandle->bufPos,
                buf_char + source_pos,
                slice);
-- 
2.43.0


From 6fb0e884c89f2acfeb7cc34d631e62c84ed93a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:11 +0000
Subject: [PATCH 009/110] fix: direct IO fsync should cover truncation and
 previous handle's writes

---
 src/fileops_directio.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 10713f3..9dfd300 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -38,6 +38,7 @@ public:
         , filePos(0)
         , flushedFilePos(0)
         , fsyncedFilePos(0)
+        , forceFsync(true)
         , bufPtr(_alignedBuf)
         , bufPos(0)
     {
@@ -67,6 +68,9 @@ public:
     size_t filePos;
     size_t flushedFilePos;
     size_t fsyncedFilePos;
+    // `true` if there can be un-synced changes that `fsyncedFilePos`
+    // does not cover: changes done by previous handle, or truncation.
+    bool forceFsync;
     void* bufPtr;
     uint8_t* bufCharPtr;
     size_t bufPos;
@@ -525,7 +529,8 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
     if (!phandle) return Status::NULL_FILEOPS_HANDLE;
     if (phandle->fd <= 0) return Status::INVALID_FILE_DESCRIPTOR;
     // Avoid duplicate fsync
-    if (phandle->fsyncedFilePos >= phandle->flushedFilePos) {
+    if ( !phandle->forceFsync &&
+         phandle->fsyncedFilePos >= phandle->flushedFilePos ) {
         return Status();
     }
 
@@ -538,6 +543,7 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
         return Status::ERROR;
     }
     phandle->fsyncedFilePos = phandle->flushedFilePos;
+    phandle->forceFsync = false;
     return Status();
 }
 
@@ -572,6 +578,9 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         return Status::ERROR;
     }
 
+    // File size has been changed, should do `fsync` again.
+    phandle->forceFsync = true;
+
     // Set the aligned write buffer
     if (aligned_length == length) {
         phandle->filePos = aligned_length;
-- 
2.43.0


From 8cb335aec37cd90acfde4deb5fe8d3064fa58d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:33 +0000
Subject: [PATCH 010/110] fix: bloom filter of zero size should not divide by
 zero

---
 src/bloomfilter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bloomfilter.cc b/src/bloomfilter.cc
index 5505a2c..97985f5 100644
--- a/src/bloomfilter.cc
+++ b/src/bloomfilter.cc
@@ -48,6 +48,9 @@ size_t BloomFilter::size() const {
 }
 
 void BloomFilter::set(void* data, size_t len) {
+    // A filter of zero size (rounded down by small settings) has no bit to set.
+    if (!bitmap.size()) return;
+
     uint64_t hash_pair[2] = {0, 0};
     get_hash_pair(data, len, hash_pair);
 
@@ -57,12 +60,17 @@ void BloomFilter::set(void* data, size_t len) {
 }
 
 void BloomFilter::set(uint64_t* hash_pair) {
+    if (!bitmap.size()) return;
+
     for (size_t ii=0; ii<hashCount; ++ii) {
         bitmap.set( gen_hash(ii, hash_pair) % bitmap.size(), true );
     }
 }
 
 bool BloomFilter::check(void* data, size_t len) {
+    // A filter of zero size cannot exclude any key.
+    if (!bitmap.size()) return true;
+
     uint64_t hash_pair[2] = {0, 0};
     get_hash_pair(data, len, hash_pair);
 
@@ -75,6 +83,8 @@ bool BloomFilter::check(void* data, size_t len) {
 }
 
 bool BloomFilter::check(uint64_t* hash_pair) {
+    if (!bitmap.size()) return true;
+
     for (size_t ii=0; ii<hashCount; ++ii) {
         if ( !bitmap.get( gen_hash(ii, hash_pair) % bitmap.size() ) ) {
             return false;
-- 
2.43.0


From b29c87bfa1789e85e909d3686fd5ebd72bd23a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:55 +0000
Subject: [PATCH 011/110] fix: iterator seek to the smaller key should not stop
 at a greater key

---
 src/db_internal.h     |  2 +-
 src/iterator.cc       | 11 +++++++++--
 src/log_iterator.cc   | 11 +++++++++--
 src/log_mgr.h         |  2 +-
 src/table_iterator.cc | 11 +++++++++--
 src/table_mgr.h       |  2 +-
 6 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..82c50e9 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(bool skip_no_more_prev = false);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..b90cce6 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -401,7 +401,7 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(bool skip_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -411,6 +411,13 @@ Status Iterator::IteratorInternal::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
 
+        if ( skip_no_more_prev &&
+             (item->flags & ItrItem::no_more_prev) ) {
+            // This item is located after the key that user wants to find.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == ItrInt::BY_KEY) {
             ItrInt::ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -534,7 +541,7 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..1758e64 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,7 +409,7 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(bool skip_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -419,6 +419,13 @@ Status LogMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( skip_no_more_prev &&
+             (item->flags & ItrItem::no_more_prev) ) {
+            // This item is located after the key that user wants to find.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -524,7 +531,7 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..75e3e49 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -356,7 +356,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_no_more_prev = false);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..16f8608 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -369,7 +369,7 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(bool skip_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -379,6 +379,13 @@ Status TableMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( skip_no_more_prev &&
+             (item->flags & ItrItem::no_more_prev) ) {
+            // This item is located after the key that user wants to find.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -487,7 +494,7 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..048b383 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -427,7 +427,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_no_more_prev = false);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From c0c6215e8fd4b04155c488f120b9b22f693563c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:02 +0000
Subject: [PATCH 012/110] fix: memtable iterator should compare its range by
 the custom comparator

---
 src/memtable.h           |  2 ++
 src/memtable_iterator.cc | 26 ++++++++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..c3b170e 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -153,6 +153,8 @@ public:
             BY_SEQ = 1
         } type;
 
+        int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r) const;
+
         skiplist_node* findFirstValidNode(skiplist_node* seek_node,
                                           bool fwd_search);
 
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..e423313 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -14,6 +14,9 @@ See the License for the specific language governing permissions and
 limitations under the License.
 **************************************************************************/
 
+#include "db_internal.h"
+#include "log_file.h"
+#include "log_mgr.h"
 #include "memtable.h"
 
 namespace jungle {
@@ -45,7 +48,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && cmpSizedBuf(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +62,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && cmpSizedBuf(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -80,6 +83,17 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     return Status();
 }
 
+int MemTable::Iterator::cmpSizedBuf(const SizedBuf& l, const SizedBuf& r) const {
+    const DBConfig* db_config = mTable->logFile->logMgr->getDbConfig();
+    if (db_config->cmpFunc) {
+        // Custom cmp mode.
+        CustomCmpFunc func = db_config->cmpFunc;
+        void* param = db_config->cmpFuncParam;
+        return func(l.data, l.size, r.data, r.size, param);
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 Status MemTable::Iterator::initSN(const MemTable* m_table,
                                   const uint64_t min_seq,
                                   const uint64_t max_seq,
@@ -160,7 +174,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpSizedBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -206,7 +220,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpSizedBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -317,7 +331,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpSizedBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -337,7 +351,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpSizedBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 7467c1c112a7863ec1d686d24377a3d0e7e022ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:02 +0000
Subject: [PATCH 013/110] fix: memtable iterator seekSN to the smaller should
 not go to the end

---
 src/memtable_iterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e423313..e743c5e 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -394,7 +394,7 @@ Status MemTable::Iterator::seekSN
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
-- 
2.43.0


From fdafc6ca00d74820c6b5c0073597592154eea587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:59 +0000
Subject: [PATCH 014/110] fix: memtable iterator seek should fall back to the
 opposite direction

---
 src/memtable_iterator.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e743c5e..9225b03 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -273,13 +273,13 @@ Status MemTable::Iterator::seek
     }
     RecNode query(query_key_ptr);
 
-    bool fwd_search = true;
-
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
+        // Forward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
+            // If not found, backward search from the end.
             if (endKey.empty()) {
                 // End key is not given.
                 seek_node = skiplist_end(mTable->idxByKey);
@@ -289,33 +289,32 @@ Status MemTable::Iterator::seek
                 seek_node = skiplist_find_smaller_or_equal
                             ( mTable->idxByKey, &end_query.snode );
             }
-            // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
+        // Backward search.
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
+            // If not found, forward search from the beginning.
             if (startKey.empty()) {
                 // Start key is not given.
                 seek_node = skiplist_begin(mTable->idxByKey);
             } else {
-                // End key is given.
+                // Start key is given.
                 RecNode start_query(&startKey);
                 seek_node = skiplist_find_greater_or_equal
                             ( mTable->idxByKey, &start_query.snode );
             }
-            // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
-- 
2.43.0


From 9eb2b57788bcb8f287daf198a068036e3cefebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:59 +0000
Subject: [PATCH 015/110] fix: iterator should return to an item that has been
 left behind by turning back

---
 src/iterator.cc       | 8 ++++++--
 src/log_iterator.cc   | 8 ++++++--
 src/table_iterator.cc | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index b90cce6..a76b64a 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -230,7 +230,9 @@ Status Iterator::prev() {
             (void)avl_ret;
             cursor = avl_last(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_prev;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrInt::ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -338,7 +340,9 @@ Status Iterator::next() {
             (void)avl_ret;
             cursor = avl_first(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_next;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrInt::ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 1758e64..1e86499 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -278,7 +278,9 @@ Status LogMgr::Iterator::prev() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_last(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -354,7 +356,9 @@ Status LogMgr::Iterator::next() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_first(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_next;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 16f8608..2400691 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -232,7 +232,9 @@ Status TableMgr::Iterator::prev() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -317,7 +319,9 @@ Status TableMgr::Iterator::next() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_next;
+            // NOTE: The cursor will move away from this item, so that
+            //       it is a valid candidate for the opposite direction.
+            item->flags = ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
-- 
2.43.0


From e64ca95377492afe8e3e762c5aef04dabebf5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:12 +0000
Subject: [PATCH 016/110] fix: table lookup should ignore an older record of
 another table

---
 src/table_mgr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..9f429e5 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -629,7 +629,7 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
-- 
2.43.0


From 7dfcd93eb6ee15586b8cadc227bc818be6232791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:34 +0000
Subject: [PATCH 017/110] fix: snapshot should search the tables it is holding

---
 src/table_mgr.cc | 49 ++++++++++++++++++++++++++++++++++++++++++++----
 src/table_mgr.h  |  4 ++++
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 9f429e5..e58aa0c 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -571,14 +571,18 @@ Status TableMgr::get(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+        if (snap_handle) {
+            s = getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+        }
         if (!s) continue;
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
         // Search smallest normal table first and then the others,
         // as it always has the newest data for the same key.
-        if (ii == 0) {
+        if (ii == 0 && !snap_handle) {
             sm_table = getSmallestNormalTable(tables);
             if (sm_table) {
                 Record new_rec;
@@ -617,6 +621,10 @@ Status TableMgr::get(DB* snap_handle,
             //          as it is given by caller.
             new_rec.kv.key = rec_inout.kv.key;
             s = table->file->get(snap_handle, new_rec, meta_only);
+            if (snap_handle && s == Status::SNAPSHOT_NOT_FOUND) {
+                // The table didn't have any data at the moment of snapshot.
+                s = Status::KEY_NOT_FOUND;
+            }
             if ( s.ok() &&
                  ( latest_rec.empty() ||
                    latest_rec.seqNum < new_rec.seqNum ) ) {
@@ -711,7 +719,11 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
+        if (snap_handle) {
+            s = getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesNearest(ii, key, tables, s_opt);
+        }
         if (!s) continue;
 
         bool found_intolerable_error = false;
@@ -729,6 +741,10 @@ Status TableMgr::getNearest(DB* snap_handle,
                                          returned_rec,
                                          s_opt,
                                          meta_only );
+            if (snap_handle && s == Status::SNAPSHOT_NOT_FOUND) {
+                // The table didn't have any data at the moment of snapshot.
+                s = Status::KEY_NOT_FOUND;
+            }
             if (s) {
                 update_cur_nearest(returned_rec);
             } else if (s != Status::KEY_NOT_FOUND) {
@@ -761,7 +777,11 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
+        if (snap_handle) {
+            s = getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesPrefix(ii, prefix, tables);
+        }
         if (!s) continue;
 
         bool stopped = false;
@@ -769,6 +789,10 @@ Status TableMgr::getPrefix(DB* snap_handle,
         for (TableInfo* table: tables) {
             if (!stopped && !found_intolerable_error) {
                 s = table->file->getPrefix(snap_handle, prefix, cb_func);
+                if (snap_handle && s == Status::SNAPSHOT_NOT_FOUND) {
+                    // The table didn't have any data at the moment of snapshot.
+                    s = Status::KEY_NOT_FOUND;
+                }
             }
             table->done();
             if (s == Status::OPERATION_STOPPED) stopped = true;
@@ -784,6 +808,23 @@ Status TableMgr::getPrefix(DB* snap_handle,
     return s;
 }
 
+Status TableMgr::getTablesOfSnapshot(DB* snap_handle,
+                                     size_t level,
+                                     std::list<TableInfo*>& tables_out)
+{
+    // NOTE:
+    //   Current tables in manifest may have been created by compaction after
+    //   the snapshot is taken, so that only the tables that the snapshot is
+    //   holding should be searched.
+    for (TableInfo* t_info: *snap_handle->sn->tableList) {
+        if (t_info->level != level) continue;
+        t_info->grab();
+        tables_out.push_back(t_info);
+    }
+    if (tables_out.empty()) return Status::TABLE_NOT_FOUND;
+    return Status();
+}
+
 TableInfo* TableMgr::getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                          uint32_t target_hash_num)
 {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 048b383..b573782 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -505,6 +505,10 @@ protected:
                               TableInfo*& table1_out,
                               TableInfo*& table2_out);
 
+    Status getTablesOfSnapshot(DB* snap_handle,
+                               size_t level,
+                               std::list<TableInfo*>& tables_out);
+
     TableInfo* getSmallestNormalTable(const std::list<TableInfo*>& tables,
                                       uint32_t target_hash_num = _SCU32(-1));
 
-- 
2.43.0


From e86f0c0cc719a3187547165b26eacac6e8f8d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:01 +0000
Subject: [PATCH 018/110] fix: prefix search should visit all tables that match
 the prefix

---
 src/table_manifest.cc | 52 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..99d85c2 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -801,41 +801,45 @@ Status TableManifest::getTablesPrefix(const size_t level,
         return getTablesByHash(l_info, target_hash, tables_out);
 
     } else {
-        // Other levels: return 1 or 2 tables
-        //   If next table's min key has matched prefix,
-        //   return the next table as well.
+        // Other levels: return the table covering the prefix, and
+        //   all following tables whose min key has matched prefix.
         TableInfo query(level, 0, 0, true);
         query.minKey.referTo(prefix);
         skiplist_node* cursor = skiplist_find_smaller_or_equal
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
-            if (cur_next) {
-                TableInfo* t_info = _get_entry(cur_next, TableInfo, snode);
-                // Check if prefix matches.
-                if ( t_info->minKey.size < prefix.size ||
-                     SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
-                                    prefix ) != 0 ) {
-                    // Prefix doesn't match, don't need to search next table.
-                    // SHOULD RELEASE SKIPLIST NODE.
-                    skiplist_release_node(cur_next);
-                    cur_next = nullptr;
+        bool is_first_table = true;
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            if (is_first_table) {
+                if (t_info->prevTableSearchRequired) {
+                    skiplist_node* cur_prev = skiplist_prev(l_info->tables, cursor);
+                    if (cur_prev) {
+                        TableInfo* t_prev = _get_entry(cur_prev, TableInfo, snode);
+                        t_prev->grab();
+                        pushTablesInStack(t_prev, tables_out);
+                        tables_out.push_back(t_prev);
+                        skiplist_release_node(cur_prev);
+                    }
                 }
+            } else if ( t_info->minKey.size < prefix.size ||
+                        SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
+                                       prefix ) != 0 ) {
+                // Prefix doesn't match, don't need to search the others.
+                break;
             }
 
-            for (skiplist_node* cc: {cursor, cur_next}) {
-                if (!cc) continue;
-
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-                skiplist_release_node(cc);
-            }
+            cursor = skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
+            is_first_table = false;
         }
+        // SHOULD RELEASE SKIPLIST NODE.
+        if (cursor) skiplist_release_node(cursor);
     }
 
     return Status();
-- 
2.43.0


From 493686d84062349d0074705d28602f174354e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:01 +0000
Subject: [PATCH 019/110] fix: bloom filter of table should contain tombstones

---
 src/table_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..0e5c182 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -919,8 +919,10 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
+    if (!deletion_executed) {
         // Set bloom filter if exists.
+        // NOTE: Tombstone should be found as well,
+        //       otherwise older data in lower level will be returned.
         if (bfByKey) {
             uint64_t hash_pair[2];
             get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-- 
2.43.0


From 7a9ede3e6e332728881191aa169213eea4eae6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:23 +0000
Subject: [PATCH 020/110] fix: empty log file should be found by sequence
 number after reopening

---
 src/log_manifest.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..ba37558 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -439,6 +439,10 @@ Status LogManifest::load(const std::string& path,
                 _log_warn(myLog, "no log file is found due to previous crash, "
                           "created new log file %zu", l_file_num);
 
+                // The new log file is the only one and will contain whatever
+                // comes next, regardless of the previous sequence number.
+                min_seq = 0;
+
                 // Make it escape loop.
                 ii = num_log_files;
             }
@@ -453,7 +457,9 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
-        addNewLogFile(l_file_num, l_file, min_seq);
+        // NOTE: If the first sequence number is not known yet (i.e., empty file),
+        //       the file should be found by any sequence number to be written.
+        addNewLogFile(l_file_num, l_file, valid_number(min_seq) ? min_seq : 0);
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
-- 
2.43.0


From 6979a7543bb1043654c0fe97211229011b503080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:30 +0000
Subject: [PATCH 021/110] fix: all tables except for the victim should be
 released

---
 src/table_compact_condition.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/table_compact_condition.cc b/src/table_compact_condition.cc
index 9049a54..f7ec655 100644
--- a/src/table_compact_condition.cc
+++ b/src/table_compact_condition.cc
@@ -274,13 +274,11 @@ Status TableMgr::pickVictimTable(size_t level,
         }
     }
 
-    // Remove other tables except for victim family.
+    // Release other tables except for victim.
     auto entry = tables.begin();
     while (entry != tables.end()) {
         TableInfo* tt = *entry;
-        if ( tt == victim_table ||
-             ( victim_table &&
-               tt->minKey == victim_table->minKey ) ) {
+        if (tt == victim_table) {
             // Keep it.
         } else {
             tt->done();
-- 
2.43.0


From 025c38061b9884e82a7581dffd086fa5a4617d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:55 +0000
Subject: [PATCH 022/110] fix: log file following an empty log file should be
 found by sequence number

---
 src/log_manifest.cc | 3 ++-
 src/log_manifest.h  | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index ba37558..b1dedc5 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -750,7 +750,8 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
                                         bool force_not_load_memtable,
                                         bool allow_non_exact_match)
 {
-    LogFileInfo query(0);
+    // The last one among the files starting from the same sequence number.
+    LogFileInfo query(NOT_INITIALIZED);
     query.startSeq = seq_num;
     skiplist_node* cursor = skiplist_find_smaller_or_equal
                             ( &logFilesBySeq, &query.snodeBySeq );
diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..84034ef 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -71,6 +71,11 @@ struct LogFileInfo {
 
         if (aa->startSeq < bb->startSeq) return -1;
         if (aa->startSeq > bb->startSeq) return 1;
+
+        // NOTE: If the previous log file is empty, both files have the
+        //       same start sequence number. The latter should be bigger.
+        if (aa->logFileNum < bb->logFileNum) return -1;
+        if (aa->logFileNum > bb->logFileNum) return 1;
         return 0;
     }
 
-- 
2.43.0


From 928fc7f44af3fb9396054f7c1695e75910e290eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:55 +0000
Subject: [PATCH 023/110] fix: retrying openSnapshot should not keep the log
 files already released

---
 src/log_mgr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..b101147 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -435,6 +435,8 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                     l_info->done();
                 }
             }
+            // They are not held by this snapshot anymore.
+            l_list->clear();
 
             retry_init = true;
             break;
-- 
2.43.0


From 66885e0b129bff780794fa21a063862b4065b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:06:38 +0000
Subject: [PATCH 024/110] fix: snapshot should be opened even if its sequence
 number is not in log files

---
 src/log_mgr.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b101147..edcbab0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -405,7 +405,14 @@ Status LogMgr::openSnapshot(DB* snap_handle,
 
     // Get log file numbers.
     EP( mani->getMinLogFileNum(l_num_min) );
-    EP( mani->getLogFileNumBySeq(checkpoint, l_num_max) );
+    s = mani->getLogFileNumBySeq(checkpoint, l_num_max, false, true);
+    if (!s) {
+        // No log file contains the given sequence number
+        // (e.g., already flushed and removed, or the last one is empty).
+        // Should hold all log files, records beyond the checkpoint
+        // will be filtered out.
+        EP( mani->getMaxLogFileNum(l_num_max) );
+    }
 
     bool log_store_mode = getDbConfig()->logSectionOnly;
     bool retry_init = false;
-- 
2.43.0


From 5ffdb0205958177ff0e0258fd4dd40972e7f0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:44 +0000
Subject: [PATCH 025/110] fix: sequence number should not go back if log files
 are lost after flush

---
 src/log_manifest.cc |  3 +++
 src/log_mgr.cc      | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index b1dedc5..3df8967 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -435,6 +435,9 @@ Status LogManifest::load(const std::string& path,
                 //       after table loading is done. So it is safe to
                 //       set it to 0 here.
                 l_file->create(l_filename, fLogOps, l_file_num, 0);
+                if (valid_number(last_synced_seq)) {
+                    l_file->forceSeqnum(last_synced_seq);
+                }
 
                 _log_warn(myLog, "no log file is found due to previous crash, "
                           "created new log file %zu", l_file_num);
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index edcbab0..eb13eb8 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -2157,9 +2157,11 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
     if (!s) return Status();
     s = mani->getMaxLogFileNum(max_log_file);
 
+    bool need_flush = false;
     for (size_t ii=min_log_file; ii<=max_log_file; ++ii) {
         LogFileInfoGuard ll( mani->getLogFileInfoP(ii) );
         uint64_t min_seq = ll.file()->getMinSeqNum();
+        uint64_t max_seq = ll.file()->getMaxSeqNum();
         uint64_t flushed_seq = ll.file()->getFlushedSeqNum();
         uint64_t seq_counter = ll.file()->getSeqCounter();
         _log_info(myLog, "log file %zu, min seq %s flushed seq %s seq counter %s "
@@ -2175,6 +2177,17 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
         //   we should re-flush them, instead of force-setting
         //   the last flushed number (it causes data loss).
         //ll.file()->forceSeqnum(last_seqnum);
+        if ( valid_number(max_seq) &&
+             ( !valid_number(flushed_seq) || flushed_seq < max_seq ) ) {
+            need_flush = true;
+        }
+    }
+
+    if (!need_flush) {
+        // There is nothing to re-flush (e.g., log files were lost or removed).
+        // New records should have greater seq numbers than those in tables.
+        LogFileInfoGuard ll( mani->getLogFileInfoP(max_log_file) );
+        ll.file()->forceSeqnum(last_seqnum);
     }
 
     return s;
-- 
2.43.0


From 47157603285ef03ad0984db74308d65d36f897b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:17 +0000
Subject: [PATCH 026/110] fix: compaction should not work on a table already
 compacted by other thread

---
 src/table_compaction.cc | 12 ++++++
 src/table_mgr.h         |  2 +
 src/table_split.cc      | 90 ++++++++++++++++++++++++-----------------
 3 files changed, 67 insertions(+), 37 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..10e77bf 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -76,6 +76,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, {local_victim->number});
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // Other thread may have already compacted this table.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
 
     // Get overlapping tables.
     SizedBuf min_key_victim = local_victim->minKey;
@@ -103,6 +105,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // Lock destination tables.
     TableLockHolder tl_dst_holder( this, table_list_to_number(tables) );
     if (!tl_dst_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    for (auto& entry: tables) {
+        // Ditto.
+        if (entry->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     TableStats victim_stats;
     local_victim->file->getStats(victim_stats);
@@ -611,6 +617,10 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, table_list_to_number(tables));
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    for (auto& entry: tables) {
+        // Other thread may have already compacted this table.
+        if (entry->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     mani->extendLevel();
 
@@ -684,6 +694,8 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     // Lock victim table.
     TableLockHolder tl_holder(this, {local_victim->number});
     if (!tl_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // Other thread may have already compacted this table.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
 
     uint64_t dst_table_num = 0;
     std::string dst_filename;
diff --git a/src/table_mgr.h b/src/table_mgr.h
index b573782..c3e504e 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -219,6 +219,8 @@ public:
 
     Status pickTableToFix(size_t level, TableInfo*& victim_table_out);
 
+    TableInfo* findPrevTable(size_t level, TableInfo* victim_table);
+
     TableInfo* findLocalVictim(size_t level,
                                TableInfo* given_victim,
                                VictimPolicy policy,
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..7c7dacc 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -77,6 +77,8 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     // Lock victim table only, all the others will be newly created.
     TableLockHolder tl_holder(this, {victim_table->number});
     if (!tl_holder.ownsLock()) return Status::OPERATION_IN_PROGRESS;
+    // Other thread may have already compacted this table.
+    if (victim_table->isRemoved()) return Status::OPERATION_IN_PROGRESS;
 
     _log_info( myLog, "split table %zu_%zu, level %zu, min key %s begins",
                opt.prefixNum, victim_table->number, level,
@@ -367,6 +369,34 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
    }
 }
 
+TableInfo* TableMgr::findPrevTable(size_t level, TableInfo* victim_table) {
+    std::list<TableInfo*> tables;
+    SizedBuf empty_key;
+    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
+        std::lock_guard<std::mutex> l(mani->getLock());
+        mani->getTablesRange(level, empty_key, empty_key, tables);
+    }
+
+    bool victim_found = false;
+    TableInfo* prev_table = nullptr;
+    for (TableInfo* tt: tables) {
+        // NOTE: `tables` is sorted by `minKey`, so if we break here,
+        //       `prev_table` is the one right before `victim_table`.
+        if (tt == victim_table) {
+            victim_found = true;
+            break;
+        }
+        prev_table = tt;
+    }
+    // If the victim is already removed by other thread, nothing to return.
+    if (!victim_found) prev_table = nullptr;
+
+    for (TableInfo* tt: tables) {
+        if (tt != prev_table) tt->done();
+    }
+    return prev_table;
+}
+
 Status TableMgr::mergeLevel(const CompactOptions& options,
                             TableInfo* victim_table,
                             size_t level)
@@ -387,29 +417,14 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
     if (!local_victim) return Status::TABLE_NOT_FOUND;
 
     // Find the target table (i.e., right before the victim).
-    std::list<TableInfo*> tables;
     SizedBuf empty_key;
-    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
-        std::lock_guard<std::mutex> l(mani->getLock());
-        mani->getTablesRange(level, empty_key, empty_key, tables);
-    }
-
-    TableInfo* target_table = nullptr;
-    for (TableInfo* tt: tables) {
-        // NOTE: `tables` is sorted by `minKey`, so if we break here,
-        //       `target_table` is the one right before `local_victim`.
-        if (tt == local_victim) break;
-        target_table = tt;
-    }
-    for (TableInfo* tt: tables) {
-        if (tt != target_table) tt->done();
-    }
+    TableInfo* target_table = findPrevTable(level, local_victim);
 
     TableFile::Iterator* itr = nullptr;
    try {
-    assert(target_table);
     if (!target_table) {
-        // It should not happen anyway.
+        // The victim is the first table,
+        // or already compacted by other thread.
         throw Status( Status::TABLE_NOT_FOUND );
     }
 
@@ -441,6 +456,14 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
     TableLockHolder tl_gt_holder(this, {num_gt});
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // Other thread may have already compacted these tables,
+    // or added another table in between.
+    TableInfo* cur_prev_table = findPrevTable(level, local_victim);
+    if (cur_prev_table) cur_prev_table->done();
+    if (cur_prev_table != target_table) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     // Read all records from the victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, local_victim->file, empty_key, empty_key) );
@@ -536,29 +559,14 @@ Status TableMgr::fixTable(const CompactOptions& options,
     if (!local_victim) return Status::TABLE_NOT_FOUND;
 
     // Find the target table (i.e., right before the victim).
-    std::list<TableInfo*> tables;
     SizedBuf empty_key;
-    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
-        std::lock_guard<std::mutex> l(mani->getLock());
-        mani->getTablesRange(level, empty_key, empty_key, tables);
-    }
-
-    TableInfo* target_table = nullptr;
-    for (TableInfo* tt: tables) {
-        // NOTE: `tables` is sorted by `minKey`, so if we break here,
-        //       `target_table` is the one right before `local_victim`.
-        if (tt == local_victim) break;
-        target_table = tt;
-    }
-    for (TableInfo* tt: tables) {
-        if (tt != target_table) tt->done();
-    }
+    TableInfo* target_table = findPrevTable(level, local_victim);
 
     TableFile::Iterator* itr = nullptr;
    try {
-    assert(target_table);
-    if (!target_table || target_table == local_victim) {
-        // It should not happen anyway.
+    if (!target_table) {
+        // The victim is the first table,
+        // or already compacted by other thread.
         local_victim->prevTableSearchRequired = false;
         throw Status( Status::TABLE_NOT_FOUND );
     }
@@ -591,6 +599,14 @@ Status TableMgr::fixTable(const CompactOptions& options,
     TableLockHolder tl_gt_holder( this, {num_gt} );
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // Other thread may have already compacted these tables,
+    // or added another table in between.
+    TableInfo* cur_prev_table = findPrevTable(level, local_victim);
+    if (cur_prev_table) cur_prev_table->done();
+    if (cur_prev_table != target_table) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     // Read records in target table, starting from min-key of victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, target_table->file, local_victim->minKey, empty_key) );
-- 
2.43.0


From 1d3fe10680e2a81e0b3b1def1d694b748c846494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:17 +0000
Subject: [PATCH 027/110] fix: in-place compaction should not touch the new
 table after adding it to manifest

---
 src/table_compaction.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 10e77bf..ba4bc92 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -729,13 +729,17 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
 
     // Add special checkpoint 0, for base snapshot.
+    // WARNING: Should be done before adding the file to the manifest,
+    //          since other thread may compact and then remove the file
+    //          as soon as it is added.
     uint64_t new_file_last_seqnum = 0;
     newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
     newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+
     // Close the destination handle.
     local_victim->file->releaseDstHandle(dst_handle);
 
-- 
2.43.0


From 3da4a19cf92bec1a4bde4cd71ec03b79917a8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:38 +0000
Subject: [PATCH 028/110] fix: table file being migrated should not be
 destroyed while the old level refers to it

---
 src/table_file.cc    |  7 ++++++-
 src/table_file.h     | 12 +++++++++++-
 src/table_manifest.h |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 0e5c182..8ebda29 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -240,6 +240,7 @@ TableFile::TableFile(const TableMgr* table_mgr)
     , fOps(nullptr)
     , tableMgr(table_mgr)
     , tableInfo(nullptr)
+    , numTableInfos(0)
     , writer(nullptr)
     , bfByKey(nullptr)
     , tlbByKey(nullptr)
@@ -595,9 +596,13 @@ Status TableFile::openSnapshot(DB* snap_handle,
     }
     if (fs != FDB_RESULT_SUCCESS) return Status::FDB_OPEN_KVS_FAIL;
 
+    bool duplicate = false;
     {   mGuard l(snapHandlesLock);
-        snapHandles.insert( std::make_pair(snap_handle, fdbSnap) );
+        auto ret = snapHandles.insert( std::make_pair(snap_handle, fdbSnap) );
+        duplicate = !ret.second;
     }
+    // The same file can be visited twice if it is being migrated.
+    if (duplicate) fdb_kvs_close(fdbSnap);
     return Status();
 }
 
diff --git a/src/table_file.h b/src/table_file.h
index 13d4097..ef7eaa0 100644
--- a/src/table_file.h
+++ b/src/table_file.h
@@ -216,7 +216,13 @@ public:
 
     void setLogger(SimpleLogger* logger) { myLog = logger; }
 
-    void setTableInfo(TableInfo* t_info) { tableInfo = t_info; }
+    void setTableInfo(TableInfo* t_info) {
+        tableInfo = t_info;
+        numTableInfos.fetch_add(1);
+    }
+
+    // Return `true` if the caller is the last table info owning this file.
+    bool releaseTableInfo() { return numTableInfos.fetch_sub(1) == 1; }
 
     SimpleLogger* getLogger() const { return myLog; }
 
@@ -420,6 +426,10 @@ private:
     // Corresponding table info.
     TableInfo* tableInfo;
 
+    // Number of table infos owning this file. It can be more than one if the
+    // table is migrated to the next level while the old info is being used.
+    std::atomic<uint64_t> numTableInfos;
+
     // ForestDB writer handles
     FdbHandle* writer;
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..0cdd93e 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -101,7 +101,8 @@ struct TableInfo {
                 // NOTE: We should not remove file object if this
                 //       table is being migrated to next level, as
                 //       next level's table info will reuse it.
-                if (!migration) {
+                //       The last one will remove it.
+                if (file->releaseTableInfo()) {
                     file->destroySelf();
                     delete file;
                 }
-- 
2.43.0


From 4f5cdb1fca000709aa5a7ea9cdf159eaff1f7486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:32 +0000
Subject: [PATCH 029/110] fix: failure of table manager initialization should
 not crash

---
 src/table_mgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index e58aa0c..74479f5 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -988,7 +988,8 @@ Status TableMgr::close() {
     do {
         wait_more = false;
         // non-LSM mode compaction.
-        for (size_t ii=0; ii<numL0Partitions; ++ii) {
+        // NOTE: `compactStatus` is empty if `init()` failed.
+        for (size_t ii=0; ii<compactStatus.size(); ++ii) {
             if (compactStatus[ii]->load()) {
                 wait_more = true;
                 break;
-- 
2.43.0


From 5b59ce328dfba1f200e120b7934f61753c32f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:22 +0000
Subject: [PATCH 030/110] fix: flush by sequence number should not drop
 un-synced logs or ignore visible barrier

---
 src/log_mgr.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index eb13eb8..ba533ff 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1421,8 +1421,19 @@ Status LogMgr::flush(const FlushOptions& options,
         seq_num_local = seq_barrier;
     }
 
-    if (seq_num_local == NOT_INITIALIZED) {
+    if (seq_num_local != NOT_INITIALIZED) {
+        // Not all logs, need to adjust `ln_to`.
+        // If in purge only mode, don't need to load mem table.
+        uint64_t ln_by_seq = NOT_INITIALIZED;
+        s = mani->getLogFileNumBySeq(seq_num_local, ln_by_seq, options.purgeOnly);
+        if (s && (options.purgeOnly || ln_by_seq < ln_to)) {
+            ln_to = ln_by_seq;
+        }
+    }
+
+    if (seq_num_local == NOT_INITIALIZED || !options.purgeOnly) {
         // Purge all synced (checkpointed) logs.
+        // If sequence number is given, it shouldn't go beyond them.
 
         // WARNING:
         //   `seq_num_local` shouldn't be `NOT_INITIALIZED`.
@@ -1430,12 +1441,13 @@ Status LogMgr::flush(const FlushOptions& options,
         //   incorrect sequence number.
         while (true) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+            uint64_t seq_num_limit = NOT_INITIALIZED;
             if (options.beyondLastSync) {
-                seq_num_local = ll->file->getMaxSeqNum();
+                seq_num_limit = ll->file->getMaxSeqNum();
             } else {
-                seq_num_local = ll->file->getSyncedSeqNum();
+                seq_num_limit = ll->file->getSyncedSeqNum();
             }
-            if (seq_num_local == NOT_INITIALIZED) {
+            if (seq_num_limit == NOT_INITIALIZED) {
                 if (ln_to > ln_from) {
                     _log_warn(myLog, "invalid seq_num_local, rewind ln_to from "
                               "%lu to %lu", ln_to, ln_to - 1);
@@ -1446,15 +1458,10 @@ Status LogMgr::flush(const FlushOptions& options,
                     return Status::LOG_NOT_SYNCED;
                 }
             } else {
+                seq_num_local = std::min(seq_num_local, seq_num_limit);
                 break;
             }
         }
-
-    } else {
-        // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
-        // If in purge only mode, don't need to load mem table.
-        mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
-- 
2.43.0


From 2f264eeb501a860a83de1037094494f1cd747501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:22 +0000
Subject: [PATCH 031/110] fix: new sequence number should be greater than those
 in tables even if remaining logs need flush

---
 src/log_file.h  |  7 +++++++
 src/log_mgr.cc  | 10 +++++++++-
 src/memtable.cc | 12 ++++++++++++
 src/memtable.h  |  3 +++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/log_file.h b/src/log_file.h
index 7386ee5..abd1bd1 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -148,6 +148,13 @@ public:
         return Status::NOT_INITIALIZED;
     }
 
+    Status advanceSeqnum(uint64_t to) {
+        if (mTable) {
+            return mTable->advanceSeqnum(to);
+        }
+        return Status::NOT_INITIALIZED;
+    }
+
     void setLogger(SimpleLogger* logger) {
         myLog = logger;
         if (mTable) mTable->setLogger(logger);
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ba533ff..16593cf 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -2165,6 +2165,7 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
     s = mani->getMaxLogFileNum(max_log_file);
 
     bool need_flush = false;
+    uint64_t last_valid_file = NOT_INITIALIZED;
     for (size_t ii=min_log_file; ii<=max_log_file; ++ii) {
         LogFileInfoGuard ll( mani->getLogFileInfoP(ii) );
         uint64_t min_seq = ll.file()->getMinSeqNum();
@@ -2188,9 +2189,16 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
              ( !valid_number(flushed_seq) || flushed_seq < max_seq ) ) {
             need_flush = true;
         }
+        if (valid_number(max_seq)) last_valid_file = ii;
     }
 
-    if (!need_flush) {
+    if (need_flush) {
+        // Records newer than those in log files have been flushed already,
+        // and then lost from log files. New records should have greater
+        // seq numbers than them.
+        LogFileInfoGuard ll( mani->getLogFileInfoP(last_valid_file) );
+        ll.file()->advanceSeqnum(last_seqnum);
+    } else {
         // There is nothing to re-flush (e.g., log files were lost or removed).
         // New records should have greater seq numbers than those in tables.
         LogFileInfoGuard ll( mani->getLogFileInfoP(max_log_file) );
diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..fbdcad2 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1598,5 +1598,17 @@ Status MemTable::forceSeqnum(uint64_t to) {
     return Status();
 }
 
+Status MemTable::advanceSeqnum(uint64_t to) {
+    if ( !valid_number(maxSeqNum) ||
+         to <= maxSeqNum ) {
+        return Status();
+    }
+    seqNumAlloc = to;
+    maxSeqNum = to;
+    syncedSeqNum = to;
+    _log_warn(myLog, "updated max/sync seq numbers to %zu", to);
+    return Status();
+}
+
 } // namespace jungle
 
diff --git a/src/memtable.h b/src/memtable.h
index c3b170e..b5ad2af 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -112,6 +112,9 @@ public:
     uint64_t getSeqCounter() const { return seqNumAlloc.load(MOR); }
     Status forceSeqnum(uint64_t to);
 
+    // Same as above, but existing records will remain un-flushed.
+    Status advanceSeqnum(uint64_t to);
+
     void setLogger(SimpleLogger* logger) { myLog = logger; }
 
     bool isIncreasingOrder() const { return increasingOrder; }
-- 
2.43.0


From 959b3d2b71a562a5fd803eebe6e1a67b378b42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:23 +0000
Subject: [PATCH 032/110] fix: start sequence number of log file next to an
 empty one

---
 src/log_manifest.cc | 10 +++++++++-
 src/log_mgr.cc      |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 3df8967..235fbc4 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -297,6 +297,7 @@ Status LogManifest::load(const std::string& path,
     uint64_t last_synced_seq = NOT_INITIALIZED;
 
     bool first_file_read = false;
+    uint64_t last_max_seq = NOT_INITIALIZED;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
         LogFile* l_file = new LogFile(logMgr);
         l_file->setLogger(myLog);
@@ -462,7 +463,14 @@ Status LogManifest::load(const std::string& path,
 
         // NOTE: If the first sequence number is not known yet (i.e., empty file),
         //       the file should be found by any sequence number to be written.
-        addNewLogFile(l_file_num, l_file, valid_number(min_seq) ? min_seq : 0);
+        uint64_t start_seq = min_seq;
+        if (!valid_number(start_seq)) {
+            start_seq = valid_number(last_max_seq) ? last_max_seq + 1 : 0;
+        }
+        addNewLogFile(l_file_num, l_file, start_seq);
+        if (valid_number(l_file->getMaxSeqNum())) {
+            last_max_seq = l_file->getMaxSeqNum();
+        }
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 16593cf..5525dcb 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -520,7 +520,13 @@ Status LogMgr::addNewLogFile(LogFileInfoGuard& cur_log_file_info,
                 LogFile::getLogFileName(opt.path, opt.prefixNum, new_log_num);
         LogFile* l_new_file = new LogFile(this);
         l_new_file->setLogger(myLog);
-        uint64_t start_seqnum = cur_log_file_info->file->getMaxSeqNum() + 1;
+        uint64_t start_seqnum = cur_log_file_info->file->getMaxSeqNum();
+        if (valid_number(start_seqnum)) {
+            start_seqnum++;
+        } else {
+            // Current log file is empty, start from the same seq number.
+            start_seqnum = cur_log_file_info.ptr->startSeq;
+        }
         l_new_file->create( l_filename,
                             opt.dbConfig->directIoOpt.enabled
                                 && FileOps::supportDirectIO()
-- 
2.43.0


From 87326dfdfd889a7afa67da9b582d01a205e93acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:23 +0000
Subject: [PATCH 033/110] fix: stale bloom filter file should not be loaded
 after it was disabled

---
 src/table_file.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 8ebda29..b33b927 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -429,10 +429,17 @@ Status TableFile::load(size_t level,
     EP( openFdbHandle(db_config, filename, writer) );
 
     // Bloom filter (LSM mode only).
+    std::string bf_filename = filename + ".bf";
     if ( db_config->bloomFilterBitsPerUnit > 0.0 &&
          !bfByKey ) {
-        std::string bf_filename = filename + ".bf";
         loadBloomFilter(bf_filename, bfByKey);
+
+    } else if ( db_config->bloomFilterBitsPerUnit <= 0.0 &&
+                !db_config->readOnly &&
+                fOps->exist(bf_filename) ) {
+        // Records written without bloom filter will not be reflected in
+        // the existing file, it should not be loaded later.
+        fOps->remove(bf_filename);
     }
 
     // Lookup booster.
-- 
2.43.0


From 74b58f4a1e815d16093d357774c8c795c1f008c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:44 +0000
Subject: [PATCH 034/110] fix: thread pool shutdown should wait for busy
 threads and cancel the tasks not executed

---
 src/simple_thread_pool.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index f5a3f9c..d3d4b1f 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -310,6 +310,10 @@ public:
         if (tHandle && tHandle->joinable()) {
             tHandle->join();
         }
+        if (assignedTask) {
+            // Assigned, but the thread terminated before executing it.
+            assignedTask->cancel();
+        }
         myself.reset();
         tHandle.reset();
         assignedTask.reset();
@@ -412,6 +416,7 @@ public:
             for (size_t ii = 0; ii < myOpt.numInitialThreads; ++ii) {
                 std::shared_ptr<ThreadHandle> t_handle( new ThreadHandle(this, ii) );
                 idleThreads.push_back(t_handle);
+                allThreads.push_back(t_handle);
                 t_handle->init(t_handle);
             }
         }
@@ -428,16 +433,12 @@ public:
         }
         loopThread.reset();
 
-        do {
-            std::shared_ptr<ThreadHandle> t_handle_to_free = nullptr;
-            {   std::lock_guard<std::mutex> l(idleThreadsLock);
-                auto entry = idleThreads.begin();
-                if (entry == idleThreads.end()) break;
-                t_handle_to_free = *entry;
-                idleThreads.erase(entry);
-            }
-            t_handle_to_free->shutdown();
-        } while (true);
+        // Should wait for all threads, including those executing tasks.
+        for (auto& entry: allThreads) entry->shutdown();
+        allThreads.clear();
+        {   std::lock_guard<std::mutex> l(idleThreadsLock);
+            idleThreads.clear();
+        }
 
         std::list< std::shared_ptr<TaskHandle> > tasks_to_cancel;
         {   std::lock_guard<std::mutex> l(timedTasksLock);
@@ -628,6 +629,9 @@ private:
     // List of idle threads.
     std::list< std::shared_ptr<ThreadHandle> > idleThreads;
     std::mutex idleThreadsLock;
+
+    // List of all threads (idle or busy).
+    std::list< std::shared_ptr<ThreadHandle> > allThreads;
 };
 
 };
-- 
2.43.0


From d71fbb7f4fdf8206540cf1af924510c0ec0b2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:11 +0000
Subject: [PATCH 035/110] fix: merged async flush request should satisfy all
 requests merged

---
 src/flusher.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/flusher.cc b/src/flusher.cc
index 6be8d94..740feeb 100644
--- a/src/flusher.cc
+++ b/src/flusher.cc
@@ -23,6 +23,8 @@ limitations under the License.
 
 #include _MACRO_TO_STR(LOGGER_H)
 
+#include <algorithm>
+
 #include <pthread.h>
 
 namespace jungle {
@@ -45,9 +47,19 @@ void FlusherQueue::push(FlusherQueueElem* elem) {
             for (auto& he: elem->handlers) {
                 elem_entry->handlers.push_back(he);
             }
-            // Set up-to-date info.
-            elem_entry->fOptions = elem->fOptions;
-            elem_entry->seqUpto = elem->seqUpto;
+            // Merge info, it should satisfy both requests.
+            FlushOptions& dst = elem_entry->fOptions;
+            const FlushOptions& src = elem->fOptions;
+            dst.purgeOnly &= src.purgeOnly;
+            dst.syncOnly &= src.syncOnly;
+            dst.callFsync |= src.callFsync;
+            dst.beyondLastSync |= src.beyondLastSync;
+            dst.numFilesLimit = (dst.numFilesLimit && src.numFilesLimit)
+                                ? std::max(dst.numFilesLimit, src.numFilesLimit)
+                                : 0;
+            dst.execDelayUs = std::min(dst.execDelayUs, src.execDelayUs);
+            // NOTE: `NOT_INITIALIZED` (i.e., all logs) is the biggest.
+            elem_entry->seqUpto = std::max(elem_entry->seqUpto, elem->seqUpto);
             _log_debug(elem_entry->targetDb->p->myLog,
                        "Overwrote existing req %p by %p.",
                        elem_entry, elem);
-- 
2.43.0


From 94de38bcb462f5f10a6a64cc65af673d039ecf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:11 +0000
Subject: [PATCH 036/110] fix: async flush with callFsync should sync log files
 before flushing

---
 src/flusher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flusher.cc b/src/flusher.cc
index 740feeb..a6bd33a 100644
--- a/src/flusher.cc
+++ b/src/flusher.cc
@@ -232,7 +232,7 @@ void Flusher::work() {
             if (elem->fOptions.syncOnly) sync_only = true;
         }
 
-        if (gConfig.flusherAutoSync || sync_only) {
+        if (gConfig.flusherAutoSync || sync_only || call_fsync) {
             s = target_db->sync(call_fsync);
         }
         if (s) {
-- 
2.43.0


From 5bc54da40ae7f5b2bcdbe082ff27105d0ee6b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:03 +0000
Subject: [PATCH 037/110] fix: sync-only request merged into flush request
 should be synced

---
 src/flusher.cc | 5 ++++-
 src/flusher.h  | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/flusher.cc b/src/flusher.cc
index a6bd33a..4a2a195 100644
--- a/src/flusher.cc
+++ b/src/flusher.cc
@@ -50,6 +50,7 @@ void FlusherQueue::push(FlusherQueueElem* elem) {
             // Merge info, it should satisfy both requests.
             FlushOptions& dst = elem_entry->fOptions;
             const FlushOptions& src = elem->fOptions;
+            elem_entry->needSync |= elem->needSync;
             dst.purgeOnly &= src.purgeOnly;
             dst.syncOnly &= src.syncOnly;
             dst.callFsync |= src.callFsync;
@@ -227,12 +228,14 @@ void Flusher::work() {
 
         bool call_fsync = false;
         bool sync_only = false;
+        bool need_sync = gConfig.flusherAutoSync;
         if (elem) {
             if (elem->fOptions.callFsync) call_fsync = true;
             if (elem->fOptions.syncOnly) sync_only = true;
+            if (elem->needSync || call_fsync) need_sync = true;
         }
 
-        if (gConfig.flusherAutoSync || sync_only || call_fsync) {
+        if (need_sync) {
             s = target_db->sync(call_fsync);
         }
         if (s) {
diff --git a/src/flusher.h b/src/flusher.h
index d1d842c..2c52868 100644
--- a/src/flusher.h
+++ b/src/flusher.h
@@ -29,6 +29,7 @@ struct FlusherQueueElem {
     FlusherQueueElem()
         : targetDb(nullptr)
         , seqUpto(NOT_INITIALIZED)
+        , needSync(false)
         {}
 
     FlusherQueueElem(DB* _db,
@@ -39,6 +40,7 @@ struct FlusherQueueElem {
         : targetDb(_db)
         , fOptions(_f_options)
         , seqUpto(_seq_upto)
+        , needSync(_f_options.syncOnly)
     {
         handlers.push_back( HandlerElem(_handler, _ctx) );
     }
@@ -54,6 +56,8 @@ struct FlusherQueueElem {
     DB* targetDb;
     FlushOptions fOptions;
     uint64_t seqUpto;
+    // `true` if any of merged requests is sync only.
+    bool needSync;
     std::list<HandlerElem> handlers;
 };
 
-- 
2.43.0


From 95c163cf25e3be12c74ad55713845b72328a85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:27 +0000
Subject: [PATCH 038/110] fix: pending async flush requests should be answered
 on shutdown

---
 src/flusher.cc | 11 ++++++++---
 src/jungle.cc  |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/flusher.cc b/src/flusher.cc
index 4a2a195..75a6e3f 100644
--- a/src/flusher.cc
+++ b/src/flusher.cc
@@ -30,9 +30,14 @@ limitations under the License.
 namespace jungle {
 
 FlusherQueue::~FlusherQueue() {
-    std::lock_guard<std::mutex> l(queueLock);
-    for (auto& entry: queue) {
-        FlusherQueueElem*& elem = entry;
+    // All workers are already terminated, pending requests will not be executed.
+    // Still their handlers should be invoked.
+    while (FlusherQueueElem* elem = pop()) {
+        for (auto& entry: elem->handlers) {
+            if (entry.handler) {
+                entry.handler(Status::DB_HANDLE_NOT_FOUND, entry.ctx);
+            }
+        }
         delete elem;
     }
 }
diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..37f6b6f 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -1023,6 +1023,8 @@ void DB::DBInternal::destroy() {
             bool ret = asyncFlushJob->cancel();
             _log_info(myLog, "cancel delayed async flush job %p: %d",
                       asyncFlushJob.get(), ret);
+            // If it is already running, it is referring to this instance.
+            while (!ret && !asyncFlushJob->isDone()) Timer::sleepMs(1);
         }
     }
 
-- 
2.43.0


From b94117c08d118fde49bf6f7ab10de5eebb36a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:12 +0000
Subject: [PATCH 039/110] fix: synced sequence number should not go back or
 jump to un-synced records

---
 src/log_file.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..9108c22 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -631,16 +631,16 @@ Status LogFile::setSyncedSeqNum(const uint64_t seq_num) {
         return Status();
     }
 
-    if (!valid_number(mTable->maxSeqNum)) {
-        // Nothing was appended.
+    if (!valid_number(mTable->maxSeqNum) || !valid_number(seq_num)) {
+        // Nothing was appended or synced.
         return Status();
     }
 
-    if (seq_num > mTable->maxSeqNum) {
-        mTable->syncedSeqNum.store(mTable->maxSeqNum.load());
-    } else {
-        mTable->syncedSeqNum = seq_num;
-    }
+    uint64_t new_seq = std::min(seq_num, mTable->maxSeqNum.load());
+    uint64_t cur_seq = mTable->syncedSeqNum;
+    // It should not go back, there can be other thread setting greater number.
+    while ( ( !valid_number(cur_seq) || cur_seq < new_seq ) &&
+            !mTable->syncedSeqNum.compare_exchange_weak(cur_seq, new_seq) );
     _log_debug(myLog, "Set log file %ld synced seqnum to %ld.",
                logFileNum, mTable->syncedSeqNum.load());
     return Status();
-- 
2.43.0


From 71983ddef6db02d75653d70564c9478d2d237e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:12 +0000
Subject: [PATCH 040/110] fix: key whose records were all discarded should not
 be visited by iterators

---
 src/memtable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index fbdcad2..930055c 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -106,8 +106,8 @@ uint64_t MemTable::RecNode::getMinSeq() {
     mGuard l(recListLock);
     auto entry = recList->begin();
     if (entry == recList->end()) {
-        // Shouldn't happen.
-        assert(0);
+        // All records have been discarded.
+        return NOT_INITIALIZED;
     }
     Record* rec = *entry;
     return rec->seqNum;
-- 
2.43.0


From ca912a85472dcf4449784d0302149ab37a4fe5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:12 +0000
Subject: [PATCH 041/110] fix: records older than those flushed without being
 logged should not be loaded

---
 src/memtable.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 930055c..8fb9789 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -995,6 +995,22 @@ Status MemTable::load(RwSerializer& rws,
         FlagType type = identify_type(flags);
         if (type == FlagType::RECORD) {
             uint64_t seq = 0;
+            if ( valid_number(last_seq) &&
+                 valid_number(flushed_seq) &&
+                 last_seq < flushed_seq &&
+                 rws.available(sizeof(uint32_t) + sizeof(uint64_t)) ) {
+                // Get sequence number next to the CRC.
+                size_t pos = rws.pos();
+                rws.pos(pos + sizeof(uint32_t));
+                seq = rws.getU64(s);
+                rws.pos(pos);
+                if (seq > last_seq + 1) {
+                    // Records in between were flushed to tables without
+                    // being written to this log file. Records loaded so far
+                    // have been flushed as well, and may be older than them.
+                    discardDirty(0);
+                }
+            }
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
             last_seq = seq;
             num_record++;
@@ -1028,6 +1044,15 @@ Status MemTable::load(RwSerializer& rws,
         syncedSeqNum = last_seq;
     }
 
+    if ( valid_number(flushed_seq) &&
+         ( NOT_INITIALIZED == last_seq || last_seq < flushed_seq ) ) {
+        // Same as above, but there is no more record.
+        discardDirty(0);
+        maxSeqNum = flushed_seq;
+        seqNumAlloc = flushed_seq;
+        syncedSeqNum = flushed_seq;
+    }
+
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
         _log_err( myLog,
                   "failed to load memTable for log file %s %ld "
-- 
2.43.0


From 3050ac750e15a2cc1c60c3d782640bd82e06dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:12 +0000
Subject: [PATCH 042/110] fix: batch written to an empty log file just opened
 should get valid sequence numbers

---
 src/log_mgr.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 5525dcb..8552066 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -826,6 +826,13 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
+    if ( !g_li->file->isValidToWrite() &&
+         !valid_number(g_li->file->getMaxSeqNum()) ) {
+        // Empty log file which is not writable (i.e., loaded from disk),
+        // it does not know the sequence number to start.
+        EP( addNewLogFile(g_li, g_li) );
+    }
+
     for (auto& entry: batch) {
         const Record& rr = entry;
         EP( g_li->file->setSN(rr) );
-- 
2.43.0


From e9fb2db902d5209454c38b27690c440e4bb6aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:33 +0000
Subject: [PATCH 043/110] fix: nearest and prefix search in memtable should
 skip records not visible

---
 src/memtable.cc | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 8fb9789..1480e4f 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -660,18 +660,27 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
         }
     }
 
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
+    Record* rec_ret = nullptr;
+    while (true) {
+        rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
+        if ( rec_ret &&
+             ( allow_flushed_log || // Tolerate if this is snapshot.
+               !valid_number(flushedSeqNum) ||
+               rec_ret->seqNum > flushedSeqNum ) ) {
+            break;
+        }
+
+        // Invisible, or already purged KV pair (go to table).
+        // If this is nearest search, there can be other record not purged yet.
+        cursor = nullptr;
+        if (s_opt.isGreater()) {
+            cursor = skiplist_next(idxByKey, &node->snode);
+        } else if (s_opt.isSmaller()) {
+            cursor = skiplist_prev(idxByKey, &node->snode);
+        }
         skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
+        if (!cursor) return Status::KEY_NOT_FOUND;
+        node = _get_entry(cursor, RecNode, snode);
     }
 
     if ( !allow_tombstone && rec_ret->isDel() ) {
@@ -720,14 +729,16 @@ Status MemTable::getRecordsByPrefix(const uint64_t chk,
 
     while ( is_prefix_match(node->key) ) {
         Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-        if (!rec_ret) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        }
 
         bool found = true;
         // Dummy loop to use `break`.
         do {
+            if (!rec_ret) {
+                // Invisible record, go to the next matching key.
+                found = false;
+                break;
+            }
+
             if ( valid_number(flushedSeqNum) &&
                  rec_ret->seqNum <= flushedSeqNum ) {
                 // Already purged KV pair, go to the next matching key.
-- 
2.43.0


From 49d32a4199bcd328d5817b08762f4aeb6159e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:38 +0000
Subject: [PATCH 044/110] fix: pending tasks should not wait after a timer task
 is picked

---
 src/simple_thread_pool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index d3d4b1f..dac8ef2 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -571,7 +571,12 @@ private:
                 }
             }
 
-            if (!task_to_run) {
+            if (task_to_run) {
+                // There can be other pending task(s), including normal tasks
+                // and timer tasks not examined above. Do not sleep.
+                next_sleep_us = 0;
+
+            } else {
                 // If there is no timer task to be fired for now,
                 // pick a normal task.
                 std::lock_guard<std::mutex> l(normalTasksLock);
-- 
2.43.0


From efb52652628666ef1ff9832c77c143c887bde3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:54 +0000
Subject: [PATCH 045/110] fix: destroying logger manager should not deadlock
 with its worker threads being started

---
 src/logger.cc | 10 ++++------
 src/logger.h  |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index d0c241d..44e063b 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -497,11 +497,10 @@ void SimpleLoggerMgr::handleStackTrace(int sig, siginfo_t* info, void* secret) {
 
 // LCOV_EXCL_STOP
 
-void SimpleLoggerMgr::flushWorker() {
+void SimpleLoggerMgr::flushWorker(SimpleLoggerMgr* mgr) {
 #ifdef __linux__
     pthread_setname_np(pthread_self(), "sl_flusher");
 #endif
-    SimpleLoggerMgr* mgr = SimpleLoggerMgr::get();
     while (!mgr->chkTermination()) {
         // Every 500ms.
         size_t sub_ms = 500;
@@ -518,11 +517,10 @@ void SimpleLoggerMgr::flushWorker() {
     }
 }
 
-void SimpleLoggerMgr::compressWorker() {
+void SimpleLoggerMgr::compressWorker(SimpleLoggerMgr* mgr) {
 #ifdef __linux__
     pthread_setname_np(pthread_self(), "sl_compressor");
 #endif
-    SimpleLoggerMgr* mgr = SimpleLoggerMgr::get();
     bool sleep_next_time = true;
     while (!mgr->chkTermination()) {
         // Every 500ms.
@@ -593,8 +591,8 @@ SimpleLoggerMgr::SimpleLoggerMgr()
     stackTraceBuffer = (char*)malloc(STACK_TRACE_BUFFER_SIZE);
 
 #endif
-    tFlush = std::thread(SimpleLoggerMgr::flushWorker);
-    tCompress = std::thread(SimpleLoggerMgr::compressWorker);
+    tFlush = std::thread(SimpleLoggerMgr::flushWorker, this);
+    tCompress = std::thread(SimpleLoggerMgr::compressWorker, this);
 }
 
 SimpleLoggerMgr::~SimpleLoggerMgr() {
diff --git a/src/logger.h b/src/logger.h
index a9ecb10..7c886af 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -408,8 +408,8 @@ public:
 #if defined(__linux__) || defined(__APPLE__)
     static void handleStackTrace(int sig, siginfo_t* info, void* secret);
 #endif
-    static void flushWorker();
-    static void compressWorker();
+    static void flushWorker(SimpleLoggerMgr* mgr);
+    static void compressWorker(SimpleLoggerMgr* mgr);
 
     void logStackBacktrace(size_t timeout_ms = 60*1000);
     void flushCriticalInfo();
-- 
2.43.0


From b208ab7394018e769c08241c86a821c611c132e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:16 +0000
Subject: [PATCH 046/110] fix: long log message should not lose its newline

---
 src/logger.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index 44e063b..85b4ddf 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1035,15 +1035,17 @@ void SimpleLogger::setMaxLogFiles(size_t max_log_files) {
     maxLogFiles = max_log_files;
 }
 
+// NOTE: The last byte of the buffer is always reserved for null-terminator,
+//       so that `cur_len` does not count it even if the text is truncated.
 #define _snprintf(msg, avail_len, cur_len, msg_len, ...)            \
-    avail_len = (avail_len > cur_len) ? (avail_len - cur_len) : 0;  \
+    avail_len = MSG_SIZE - cur_len;                                 \
     msg_len = snprintf( msg + cur_len, avail_len, __VA_ARGS__ );    \
-    cur_len += (avail_len > msg_len) ? msg_len : avail_len
+    cur_len += (avail_len > msg_len) ? msg_len : avail_len - 1
 
 #define _vsnprintf(msg, avail_len, cur_len, msg_len, ...)           \
-    avail_len = (avail_len > cur_len) ? (avail_len - cur_len) : 0;  \
+    avail_len = MSG_SIZE - cur_len;                                 \
     msg_len = vsnprintf( msg + cur_len, avail_len, __VA_ARGS__ );   \
-    cur_len += (avail_len > msg_len) ? msg_len : avail_len
+    cur_len += (avail_len > msg_len) ? msg_len : avail_len - 1
 
 void SimpleLogger::put(int level,
                        const char* source_file,
@@ -1118,11 +1120,11 @@ void SimpleLogger::put(int level,
         bool ret = true;
         if (local_cb) {
             ret = local_cb(level, source_file, func_name, line_number,
-                epoch_us, tid_hash, cb_msg_len, cb_msg,
+                epoch_us, tid_hash, cb_cur_len, cb_msg,
                 getLocalCtxMap());
         } else if (globalCallback) {
             ret = globalCallback(level, source_file, func_name, line_number,
-                                 epoch_us, tid_hash, cb_msg_len, cb_msg,
+                                 epoch_us, tid_hash, cb_cur_len, cb_msg,
                                  getLocalCtxMap());
         }
         if (!ret) return;
@@ -1181,6 +1183,8 @@ void SimpleLogger::put(int level,
     } else {
         _snprintf(msg, avail_len, cur_len, msg_len, "\n");
     }
+    // If the message is truncated, it still should be a single line.
+    if (cur_len == MSG_SIZE - 1) msg[cur_len - 1] = '\n';
 
     size_t num = logs.size();
     uint64_t cursor_exp = 0, cursor_val = 0;
-- 
2.43.0


From 457c7ed38dd408b02757ab0b1d8d9d917827561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:48 +0000
Subject: [PATCH 047/110] fix: log messages should not be lost or reordered by
 concurrent writes and flushes

---
 src/logger.cc | 68 +++++++++++++++++++++++++++------------------------
 src/logger.h  | 10 ++++----
 2 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index 85b4ddf..1fa8903 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -648,7 +648,9 @@ void SimpleLoggerMgr::flushAllLoggers(int level, const std::string& msg) {
         if (!msg.empty()) {
             logger->put(level, __FILE__, __func__, __LINE__, "%s", msg.c_str());
         }
-        logger->flushAll();
+        // If message is given, we are handling crash: should not wait for
+        // the other thread or this thread itself which is already flushing.
+        logger->flush(msg.empty());
     }
 }
 
@@ -752,28 +754,25 @@ struct ThreadWrapper {
 
 // ==========================================
 
-SimpleLogger::LogElem::LogElem() : len(0), status(CLEAN) {
+SimpleLogger::LogElem::LogElem() : len(0), seqNum(0), status(CLEAN) {
     memset(ctx, 0x0, MSG_SIZE);
 }
 
 // True if dirty.
 bool SimpleLogger::LogElem::needToFlush() {
-    return status.load(MOR) == DIRTY;
+    return status.load() == DIRTY;
 }
 
-// True if no other thread is working on it.
-bool SimpleLogger::LogElem::available() {
-    Status s = status.load(MOR);
-    return s == CLEAN || s == DIRTY;
-}
-
-int SimpleLogger::LogElem::write(size_t ll, char* msg) {
+int SimpleLogger::LogElem::write(size_t ll,
+                                 char* msg,
+                                 std::atomic<uint64_t>& seq_counter) {
     Status exp = CLEAN;
     Status val = WRITING;
     if (!status.compare_exchange_strong(exp, val)) return -1;
 
     len = (ll > MSG_SIZE) ? MSG_SIZE : ll;
     memcpy(ctx, msg, len);
+    seqNum = seq_counter.fetch_add(1);
 
     status.store(LogElem::DIRTY);
     return 0;
@@ -806,6 +805,7 @@ SimpleLogger::SimpleLogger(const std::string& file_path,
     , curDispLevel(4)
     , tzGap( SimpleLoggerMgr::getTzGap() )
     , cursor(0)
+    , seqCounter(0)
     , logs(max_log_elems)
     , globalPreCallback(nullptr)
     , globalCallback(nullptr)
@@ -1194,16 +1194,13 @@ void SimpleLogger::put(int level,
         cursor_val = (cursor_exp + 1) % num;
         ll = &logs[cursor_exp];
     } while ( !cursor.compare_exchange_strong(cursor_exp, cursor_val, MOR) );
-    while ( !ll->available() ) std::this_thread::yield();
-
-    if (ll->needToFlush()) {
-        // Allow only one thread to flush.
-        if (!flush(cursor_exp)) {
-            // Other threads: wait.
-            while (ll->needToFlush()) std::this_thread::yield();
+    while ( ll->write(cur_len, msg, seqCounter) != 0 ) {
+        // Other thread is working on this element, or it has not been
+        // flushed yet. Allow only one thread to flush.
+        if ( !ll->needToFlush() || !flush(false) ) {
+            std::this_thread::yield();
         }
     }
-    ll->write(cur_len, msg);
 
     if (level > curDispLevel) return;
 
@@ -1315,20 +1312,28 @@ void SimpleLogger::doCompression(size_t file_num) {
     numCompJobs.fetch_sub(1);
 }
 
-bool SimpleLogger::flush(size_t start_pos) {
-    std::unique_lock<std::mutex> ll(flushingLogs, std::try_to_lock);
-    if (!ll.owns_lock()) return false;
-
-    size_t num = logs.size();
-    // Circular flush into file.
-    for (size_t ii=start_pos; ii<num; ++ii) {
-        LogElem& ll = logs[ii];
-        ll.flush(fs);
+bool SimpleLogger::flush(bool wait) {
+    std::unique_lock<std::mutex> ll(flushingLogs, std::defer_lock);
+    if (wait) {
+        ll.lock();
+    } else if (!ll.try_lock()) {
+        return false;
     }
-    for (size_t ii=0; ii<start_pos; ++ii) {
-        LogElem& ll = logs[ii];
-        ll.flush(fs);
+
+    // Logs being written from now on belong to the next flush. Otherwise,
+    // a log may go to file earlier than a preceding log by the same thread.
+    uint64_t seq_upto = seqCounter.load();
+    std::vector<LogElem*> elems;
+    for (LogElem& entry: logs) {
+        if (entry.needToFlush() && entry.seqNum < seq_upto) {
+            elems.push_back(&entry);
+        }
     }
+    std::sort( elems.begin(), elems.end(),
+               [](const LogElem* a, const LogElem* b) {
+                   return a->seqNum < b->seqNum;
+               } );
+    for (LogElem* entry: elems) entry->flush(fs);
     fs.flush();
 
     if ( maxLogFileSize &&
@@ -1352,8 +1357,7 @@ bool SimpleLogger::flush(size_t start_pos) {
 }
 
 void SimpleLogger::flushAll() {
-    uint64_t start_pos = cursor.load(MOR);
-    flush(start_pos);
+    flush(true);
 }
 
 SimpleLogger::CtxMap& SimpleLogger::getLocalCtxMap() {
diff --git a/src/logger.h b/src/logger.h
index 7c886af..f0081e6 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -269,13 +269,12 @@ private:
         // True if dirty.
         bool needToFlush();
 
-        // True if no other thread is working on it.
-        bool available();
-
-        int write(size_t len, char* msg);
+        int write(size_t len, char* msg, std::atomic<uint64_t>& seq_counter);
         int flush(std::ofstream& fs);
 
         size_t len;
+        // Order of this log, unique among all logs.
+        uint64_t seqNum;
         char ctx[MSG_SIZE];
         std::atomic<Status> status;
     };
@@ -337,7 +336,7 @@ private:
     std::string getLogFilePath(size_t file_num) const;
     void execCmd(const std::string& cmd);
     void doCompression(size_t file_num);
-    bool flush(size_t start_pos);
+    bool flush(bool wait);
 
     CtxMap& getLocalCtxMap();
     std::list<CbType>& getLocalCbList();
@@ -365,6 +364,7 @@ private:
 
     int tzGap;
     std::atomic<uint64_t> cursor;
+    std::atomic<uint64_t> seqCounter;
     std::vector<LogElem> logs;
     std::mutex flushingLogs;
 
-- 
2.43.0


From d256d55fb6ddc7adc7dcd6467d4dd736b5b336db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:48 +0000
Subject: [PATCH 048/110] fix: stopping logger should flush even if file is
 being switched or manager is destroyed

---
 src/logger.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index 1fa8903..b6f90f3 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -615,6 +615,13 @@ SimpleLoggerMgr::~SimpleLoggerMgr() {
         tCompress.join();
     }
 
+    // Loggers are waiting for the remaining compression jobs.
+    for (CompElem* elem: pendingCompElems) {
+        elem->targetLogger->doCompression(elem->fileNum);
+        delete elem;
+    }
+    pendingCompElems.clear();
+
     free(stackTraceBuffer);
 }
 
@@ -998,19 +1005,27 @@ int SimpleLogger::start() {
 }
 
 int SimpleLogger::stop() {
-    if (fs.is_open()) {
+    bool opened = false;
+    {   // File can be temporarily closed if it is being switched to a new one.
+        std::lock_guard<std::mutex> l(flushingLogs);
+        opened = fs.is_open();
+    }
+
+    if (opened) {
+        SimpleLogger* ll = this;
         SimpleLoggerMgr* mgr = SimpleLoggerMgr::getWithoutInit();
         if (mgr) {
-            SimpleLogger* ll = this;
             mgr->removeLogger(ll);
+        }
 
-            _log_sys(ll, "Stop logger: %s", filePath.c_str());
-            flushAll();
+        _log_sys(ll, "Stop logger: %s", filePath.c_str());
+        flushAll();
+        {   std::lock_guard<std::mutex> l(flushingLogs);
             fs.flush();
             fs.close();
-
-            while (numCompJobs.load() > 0) std::this_thread::yield();
         }
+
+        while (numCompJobs.load() > 0) std::this_thread::yield();
     }
 
     return 0;
-- 
2.43.0


From 1c5ed407ae8d479d438b05919a36a16711790e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:48 +0000
Subject: [PATCH 049/110] fix: log file should not be removed if its
 compression failed

---
 src/logger.cc | 8 +++++---
 src/logger.h  | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index b6f90f3..f597eed 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1285,7 +1285,7 @@ void SimpleLogger::put(int level,
     l.unlock();
 }
 
-void SimpleLogger::execCmd(const std::string& cmd_given) {
+int SimpleLogger::execCmd(const std::string& cmd_given) {
     int r = 0;
     std::string cmd = cmd_given;
 
@@ -1298,7 +1298,7 @@ void SimpleLogger::execCmd(const std::string& cmd_given) {
     FILE* fp = popen(cmd.c_str(), "r");
     r = pclose(fp);
 #endif
-    (void)r;
+    return r;
 }
 
 void SimpleLogger::doCompression(size_t file_num) {
@@ -1306,9 +1306,11 @@ void SimpleLogger::doCompression(size_t file_num) {
     std::string filename = getLogFilePath(file_num);
     std::string cmd;
     cmd = "tar zcvf " + filename + ".tar.gz " + filename;
-    execCmd(cmd);
+    int ret = execCmd(cmd);
 
+    // If compression fails, keep the original file.
     cmd = "rm -f " + filename;
+    if (ret != 0) cmd += ".tar.gz";
     execCmd(cmd);
 
     size_t max_log_files = maxLogFiles.load();
diff --git a/src/logger.h b/src/logger.h
index f0081e6..da49a0a 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -334,7 +334,7 @@ private:
                                   size_t& max_revnum,
                                   std::string& f_name);
     std::string getLogFilePath(size_t file_num) const;
-    void execCmd(const std::string& cmd);
+    int execCmd(const std::string& cmd);
     void doCompression(size_t file_num);
     bool flush(bool wait);
 
-- 
2.43.0


From 96fc0b87e9a969477077d08ef6d86f373373a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:24:43 +0000
Subject: [PATCH 050/110] fix: exiting thread should not use logger manager
 being destroyed

---
 src/logger.cc | 12 ++++++++----
 src/logger.h  |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index f597eed..5873482 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -681,6 +681,13 @@ void SimpleLoggerMgr::removeThread(uint64_t tid) {
     activeThreads.erase(tid);
 }
 
+void SimpleLoggerMgr::removeThreadFromInstance(uint64_t tid) {
+    // Instance should not be destroyed in the meantime.
+    std::lock_guard<std::mutex> l(instance_lock);
+    SimpleLoggerMgr* mgr = instance.load(SimpleLogger::MOR);
+    if (mgr) mgr->removeThread(tid);
+}
+
 void SimpleLoggerMgr::addCompElem(SimpleLoggerMgr::CompElem* elem) {
     {   std::unique_lock<std::mutex> l(pendingCompElemsLock);
         pendingCompElems.push_back(elem);
@@ -744,10 +751,7 @@ struct ThreadWrapper {
         }
     }
     ~ThreadWrapper() {
-        SimpleLoggerMgr* mgr = SimpleLoggerMgr::getWithoutInit();
-        if (mgr) {
-            mgr->removeThread(mySelf);
-        }
+        SimpleLoggerMgr::removeThreadFromInstance(mySelf);
     }
 #else
     ThreadWrapper() : myTid(0) {}
diff --git a/src/logger.h b/src/logger.h
index da49a0a..659ec30 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -403,6 +403,7 @@ public:
     static SimpleLoggerMgr* getWithoutInit();
     static void destroy();
     static int getTzGap();
+    static void removeThreadFromInstance(uint64_t tid);
     static void handleSegFault(int sig);
     static void handleSegAbort(int sig);
 #if defined(__linux__) || defined(__APPLE__)
-- 
2.43.0


From 6c2c0444e9c642d6ec6db29860560e241af23238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:50 +0000
Subject: [PATCH 051/110] fix: last synced log should not go back to a removed
 file by a slow sync

---
 src/log_manifest.h | 7 +++++++
 src/log_mgr.cc     | 7 +++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 84034ef..6ad5edf 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -327,6 +327,13 @@ public:
     void setLastSyncedLog(const uint64_t log_num) {
         lastSyncedLog = log_num;
     }
+    void advanceLastSyncedLog(const uint64_t log_num) {
+        // Other thread (e.g., flush) may have advanced it further.
+        uint64_t cur = lastSyncedLog;
+        while (cur == NOT_INITIALIZED || cur < log_num) {
+            if (lastSyncedLog.compare_exchange_weak(cur, log_num)) break;
+        }
+    }
     void setLastFlushedLog(const uint64_t log_num) {
         lastFlushedLog = log_num;
     }
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 8552066..4a6a73e 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1320,7 +1320,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     // Sync up manifest file next
-    mani->setLastSyncedLog(last_synced_log);
+    mani->advanceLastSyncedLog(last_synced_log);
 
     const DBConfig* db_config = getDbConfig();
     if (!db_config->skipManifestSync || needSkippedManiSync) {
@@ -1578,9 +1578,8 @@ Status LogMgr::flush(const FlushOptions& options,
         //   Due to `FlushOptions::numFilesLimit`, `ln_to` could be
         //   less than `last_synced_log`.
         uint64_t last_synced_log = 0;
-        mani->getLastSyncedLog(last_synced_log);
-        if (ln_to > last_synced_log) {
-            mani->setLastSyncedLog(ln_to);
+        if (mani->getLastSyncedLog(last_synced_log)) {
+            mani->advanceLastSyncedLog(ln_to);
         }
     }
     mani->setLastFlushedLog(ln_to);
-- 
2.43.0


From bc7fd9997cf5c7a278adf451a77677995ec07c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:48 +0000
Subject: [PATCH 052/110] fix: prefix search should visit newer table of the
 same hash first

---
 src/table_mgr.cc | 21 +++++++++++++++++++++
 src/table_mgr.h  |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 74479f5..d0809d1 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -784,6 +784,11 @@ Status TableMgr::getPrefix(DB* snap_handle,
         }
         if (!s) continue;
 
+        // [Only for L0]
+        // There can be multiple tables of the same hash due to compaction,
+        // newer one should be visited first.
+        if (ii == 0) sortTablesByNewest(tables);
+
         bool stopped = false;
         bool found_intolerable_error = false;
         for (TableInfo* table: tables) {
@@ -808,6 +813,22 @@ Status TableMgr::getPrefix(DB* snap_handle,
     return s;
 }
 
+void TableMgr::sortTablesByNewest(std::list<TableInfo*>& tables) {
+    std::set<uint64_t> hashes;
+    for (TableInfo* table: tables) hashes.insert(table->hashNum);
+    if (hashes.size() == tables.size()) return;
+
+    std::map<TableInfo*, uint64_t> seqnums;
+    for (TableInfo* table: tables) {
+        TableStats stats;
+        table->file->getStats(stats);
+        seqnums[table] = valid_number(stats.lastSeqnum) ? stats.lastSeqnum : 0;
+    }
+    tables.sort( [&](TableInfo* a, TableInfo* b) -> bool {
+        return seqnums[a] > seqnums[b];
+    } );
+}
+
 Status TableMgr::getTablesOfSnapshot(DB* snap_handle,
                                      size_t level,
                                      std::list<TableInfo*>& tables_out)
diff --git a/src/table_mgr.h b/src/table_mgr.h
index c3e504e..ea38133 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -507,6 +507,9 @@ protected:
                               TableInfo*& table1_out,
                               TableInfo*& table2_out);
 
+    // Sort the given L0 tables, newer table first.
+    void sortTablesByNewest(std::list<TableInfo*>& tables);
+
     Status getTablesOfSnapshot(DB* snap_handle,
                                size_t level,
                                std::list<TableInfo*>& tables_out);
-- 
2.43.0


From 09022f849f92272ecca4938d5ab577905c790ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:30 +0000
Subject: [PATCH 053/110] fix: iterator seek without match should stay at the
 newest version of the last key

---
 src/iterator.cc       | 2 +-
 src/log_iterator.cc   | 2 +-
 src/table_iterator.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index a76b64a..73e7f13 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -550,7 +550,7 @@ Status Iterator::IteratorInternal::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 1e86499..a9614f2 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -540,7 +540,7 @@ Status LogMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 2400691..ad73bce 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -503,7 +503,7 @@ Status TableMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
-- 
2.43.0


From 3a0395eb853b2ce1a2744b9a32c020ace91f05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:54 +0000
Subject: [PATCH 054/110] fix: flush and iteration by sequence number should
 not be confused by gaps

---
 src/log_mgr.cc           | 12 ++++++++++++
 src/memtable_iterator.cc |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 4a6a73e..ccf0293 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1442,6 +1442,18 @@ Status LogMgr::flush(const FlushOptions& options,
         if (s && (options.purgeOnly || ln_by_seq < ln_to)) {
             ln_to = ln_by_seq;
         }
+        if (!s) {
+            // No log file contains the given number (sequence numbers are not
+            // necessarily consecutive). All files prior to `ln_to` will be
+            // removed, they should not have any records beyond the number.
+            for (uint64_t ii = ln_from; ii < ln_to; ++ii) {
+                LogFileInfoGuard ll(mani->getLogFileInfoP(ii, true));
+                uint64_t max_seq = ll->file->getMaxSeqNum();
+                if (valid_number(max_seq) && max_seq > seq_num_local) {
+                    ln_to = ii;
+                }
+            }
+        }
     }
 
     if (seq_num_local == NOT_INITIALIZED || !options.purgeOnly) {
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 9225b03..fdf928a 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -129,6 +129,14 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
     query.rec->seqNum = minSeq;
     cursor = skiplist_find_greater_or_equal(mTable->idxBySeq, &query.snode);
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
+    RecNodeSeq* rn = _get_entry(cursor, RecNodeSeq, snode);
+    if (rn->rec->seqNum > max_seq) {
+        // Sequence numbers are not necessarily consecutive:
+        // there is no record in the given range.
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
 
     // Doesn't allow to access logs beyond max seqnum.
     uint64_t max_local = max_seq;
-- 
2.43.0


From 262a5eabb75d3e335ead5ae6ae32fc9e257dbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:50 +0000
Subject: [PATCH 055/110] fix: sequence iterator should not return the last
 record of a log file below its range

---
 src/memtable_iterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index fdf928a..faca6e2 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -105,6 +105,10 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
     if (mTable->maxSeqNum == NOT_INITIALIZED)
         return Status::NOT_INITIALIZED;
 
+    // All records are smaller than the given range.
+    if (valid_number(min_seq) && min_seq > mTable->maxSeqNum)
+        return Status::OUT_OF_RANGE;
+
     // Doesn't allow to access logs already purged.
     uint64_t min_local = min_seq;
     if (mTable->minSeqNum != NOT_INITIALIZED &&
-- 
2.43.0


From 2ebe07b434cdcf727a099181e217239c54576c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:24 +0000
Subject: [PATCH 056/110] fix: crash during the initial setup should not make
 the database unopenable

---
 src/log_manifest.cc   | 14 ++++++++++----
 src/table_manifest.cc | 22 ++++++++++++++++++----
 src/table_manifest.h  |  2 ++
 src/table_mgr.cc      | 14 +++++++-------
 4 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 235fbc4..c4d4001 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -226,12 +226,18 @@ Status LogManifest::create(const std::string& path,
     dirPath = path;
     mFileName = filename;
 
-    // Create a new file.
+    // Store initial data to the backup file first, and then create the
+    // manifest file from it. It makes this manifest recoverable in case
+    // of crash in the middle of the initial setup.
     Status s;
-    EP( fOps->open(&mFile, mFileName.c_str()) );
+    EP( fOps->open(&mFile, mFileName + ".bak") );
+    EP( store(false) );
+    EP( fOps->fsync(mFile) );
+    fOps->close(mFile);
+    DELETE(mFile);
 
-    // Store initial data.
-    EP( store(true) );
+    EP( BackupRestore::restore(fOps, mFileName) );
+    EP( fOps->open(&mFile, mFileName.c_str()) );
 
     spawnReclaimer();
     return Status();
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 99d85c2..a1ee571 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -97,17 +97,31 @@ Status TableManifest::create(const std::string& path,
     dirPath = path;
     mFileName = filename;
 
-    // Create a new file.
+    // NOTE: Write the backup file first, to make this manifest recoverable
+    //       in case of crash in the middle of the initial setup.
+    //       The manifest file will be created by `finishCreate()`.
     Status s;
-    EP(fOps->open(&mFile, mFileName.c_str()));
-    if (!s) return s;
+    EP( fOps->open(&mFile, mFileName + ".bak") );
 
     // Initially there is only one level (level-0).
     levels.resize(1);
     levels[0] = new LevelInfo();
 
-    // Store initial data.
+    return Status();
+}
+
+Status TableManifest::finishCreate() {
+    if (mFileName.empty() || !fOps || !mFile) return Status::NOT_INITIALIZED;
+
+    Status s;
     EP( store(false) );
+    EP( fOps->fsync(mFile) );
+    fOps->close(mFile);
+    DELETE(mFile);
+
+    // Create the manifest file from the backup file.
+    EP( BackupRestore::restore(fOps, mFileName) );
+    EP( fOps->open(&mFile, mFileName) );
 
     return Status();
 }
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0cdd93e..ca8df2e 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -176,6 +176,8 @@ public:
 
     Status create(const std::string& path,
                   const std::string& filename);
+    Status finishCreate();
+
     Status load(const std::string& path,
                 const uint64_t prefix_num,
                 const std::string& filename);
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index d0809d1..5f83edb 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -270,9 +270,9 @@ Status TableMgr::init(const TableMgrOptions& _options) {
             throw Status(Status::MANIFEST_NOT_EXIST);
         }
 
-        // Create manifest file.
-        s = mani->create(opt.path, m_filename);
-        if (!s) return s;
+        // Prepare manifest, its file will be created
+        // after all initial tables are ready.
+        TC( mani->create(opt.path, m_filename) );
 
         numL0Partitions = db_config->numL0Partitions;
         if ( !db_config->logSectionOnly &&
@@ -284,8 +284,8 @@ Status TableMgr::init(const TableMgrOptions& _options) {
                 // Set 1M bits as an initial size.
                 // It will be converging to some value as compaction happens.
                 t_opt.bloomFilterSize = 1024 * 1024;
-                EP( createNewTableFile(0, t_file, t_opt) );
-                EP( mani->addTableFile(0, ii, SizedBuf(), t_file) );
+                TC( createNewTableFile(0, t_file, t_opt) );
+                TC( mani->addTableFile(0, ii, SizedBuf(), t_file) );
             }
 
         } else {
@@ -293,8 +293,8 @@ Status TableMgr::init(const TableMgrOptions& _options) {
             numL0Partitions = 0;
         }
 
-        // Store manifest file.
-        mani->store(true);
+        // Create manifest file.
+        TC( mani->finishCreate() );
     }
 
     compactStatus.resize(numL0Partitions);
-- 
2.43.0


From 95ef4ab3e238629b4b32dae3e30f081a031a757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:43 +0000
Subject: [PATCH 057/110] fix: database without any valid log file should be
 writable

---
 src/log_mgr.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ccf0293..f9c0c41 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -169,10 +169,12 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     removeStaleFiles();
 
     if (mani->getNumLogFiles() == 0) {
-        // No valid log file exists. Start from zero.
-        _log_warn(myLog, "no valid log file exists, start from 0");
+        // No valid log file exists, create a new one.
+        uint64_t log_num;
+        TC(mani->issueLogFileNumber(log_num));
+        _log_warn(myLog, "no valid log file exists, start from %" PRIu64, log_num);
         std::string l_filename =
-                LogFile::getLogFileName(opt.path, opt.prefixNum, 0);
+                LogFile::getLogFileName(opt.path, opt.prefixNum, log_num);
         LogFile* l_file = new LogFile(this);
         l_file->setLogger(myLog);
 
@@ -181,14 +183,17 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
                           opt.dbConfig->directIoOpt.enabled
                               && FileOps::supportDirectIO()
                           ? opt.fDirectOps : opt.fOps,
-                          0,
+                          log_num,
                           0));
-        TC(mani->addNewLogFile(0, l_file, 1));
+        TC(mani->addNewLogFile(log_num, l_file, 1));
 
        } catch (Status s) {
         delete l_file;
         throw s;
        }
+
+        // Sync manifest file.
+        if (!opt.dbConfig->readOnly) mani->store(true);
     }
 
     initialized = true;
-- 
2.43.0


From 70a170e73dd345e81593fca227a7c2974e9aae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:46 +0000
Subject: [PATCH 058/110] fix: fsync should cover log files synced without
 fsync before

---
 src/log_file.cc |  2 +-
 src/log_mgr.cc  | 20 ++++++++++++++++++++
 src/log_mgr.h   |  6 ++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 9108c22..f13ea3f 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -578,7 +578,7 @@ Status LogFile::sync() {
     if (!fHandle) {
         EP( openFHandle() );
     }
-    s = mTable->sync(fOps, fHandle);
+    s = fOps->fsync(fHandle);
     if (okToCloseFHandle()) {
         EP( closeFHandle() );
     }
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index f9c0c41..e15657f 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -44,6 +44,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
     , needSkippedManiSync(false)
+    , lastFsyncedLog(NOT_INITIALIZED)
     , myLog(nullptr)
     , vlSync(VERBOSE_LOG_SUPPRESS_MS)
     {}
@@ -324,6 +325,7 @@ Status LogMgr::rollback(uint64_t seq_upto) {
 
     // Adjust manifest, and store.
     mani->setLastSyncedLog(linfo->logFileNum);
+    lastFsyncedLog = NOT_INITIALIZED;
     mani->store(true);
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
@@ -1284,6 +1286,22 @@ Status LogMgr::syncInternal(bool call_fsync) {
           ln_from, ln_to, call_fsync ? "true" : "false",
           num_suppressed);
 
+    if (call_fsync) {
+        // WARNING:
+        //   Log files before `ln_from` may have been synced without `fsync`,
+        //   or written by the previous process (we cannot know whether `fsync`
+        //   was called or not). They should be durable as well.
+        uint64_t ln_fsync = lastFsyncedLog;
+        if (!valid_number(ln_fsync)) {
+            EP( mani->getMinLogFileNum(ln_fsync) );
+        }
+        for (uint64_t ii=ln_fsync; ii<ln_from; ++ii) {
+            LogFileInfoGuard li(mani->getLogFileInfoP(ii, true));
+            if (li.empty() || li.ptr->isRemoved()) continue;
+            EP( li->file->sync() );
+        }
+    }
+
     uint64_t last_synced_log = ln_from;
     uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
@@ -1324,6 +1342,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
         }
     }
 
+    if (call_fsync) lastFsyncedLog = last_synced_log;
+
     // Sync up manifest file next
     mani->advanceLastSyncedLog(last_synced_log);
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 75e3e49..1a67b74 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -466,6 +466,12 @@ protected:
      */
     std::atomic<bool> needSkippedManiSync;
 
+    /**
+     * The last log file that `fsync` was called (including all files before it).
+     * Protected by `syncSema`.
+     */
+    std::atomic<uint64_t> lastFsyncedLog;
+
     /**
      * Logger.
      */
-- 
2.43.0


From d0c2010a95749205fe102344e08dee94e2320759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:20 +0000
Subject: [PATCH 059/110] fix: corrupted record should be detected before
 decompression

---
 src/memtable.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 1480e4f..5d15cf8 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -888,6 +888,14 @@ Status MemTable::loadRecord(RwSerializer& rws,
                 comp_buf.alloc(v_size);
             }
             TC( rws.get(comp_buf.data, v_size) );
+            // WARNING: Should not decompress corrupted data.
+            crc_data_chk = crc32_8(comp_buf.data, v_size, crc_data_chk);
+            if (crc_data != crc_data_chk) {
+                _log_err(myLog, "crc error %x (expected) != %x (actual), "
+                         "in the compressed record starting at offset 0x%lx",
+                         crc_data, crc_data_chk, rec_offset - 8);
+                throw Status(Status::CHECKSUM_ERROR);
+            }
             ssize_t output_len =
                 db_config->compOpt.cbDecompress(parent_db, comp_buf, rec->kv.value);
             if (output_len != o_size) {
@@ -899,7 +907,6 @@ Status MemTable::loadRecord(RwSerializer& rws,
                            rws.pos() - v_size);
                 throw Status(Status::DECOMPRESSION_FAILED);
             }
-            crc_data_chk = crc32_8(comp_buf.data, v_size, crc_data_chk);
 
         } else {
             TC( rws.get(rec->kv.value.data, v_size) );
-- 
2.43.0


From 9b36fa7f733f78e0fe17041393c4ddf4e13258f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:20 +0000
Subject: [PATCH 060/110] fix: sequence number of empty log file should not be
 older than that of the previous log file

---
 src/log_manifest.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index c4d4001..a586d12 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -377,6 +377,12 @@ Status LogManifest::load(const std::string& path,
         if (valid_number(synced_seq)) {
             last_synced_seq = synced_seq;
         }
+        if ( valid_number(last_synced_seq) &&
+             valid_number(last_max_seq) &&
+             last_synced_seq < last_max_seq ) {
+            // Manifest may be older than the records in the previous log file.
+            last_synced_seq = last_max_seq;
+        }
         if (!valid_number(min_seq) && valid_number(last_synced_seq)) {
             min_seq = last_synced_seq + 1;
         }
-- 
2.43.0


From 25256f16465092b67aa3869cc617d1cfbff95073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:20 +0000
Subject: [PATCH 061/110] fix: skipped manifest sync should be done by the sync
 with fsync

---
 src/log_mgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index e15657f..c896e1d 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1351,7 +1351,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
     if (!db_config->skipManifestSync || needSkippedManiSync) {
         EP( mani->store(call_fsync) );
         _log_(log_level, myLog, "updated log manifest file.");
-        needSkippedManiSync = false;
+        // NOTE: If `fsync` is not called, manifest file may not be durable.
+        if (call_fsync) needSkippedManiSync = false;
     }
     return Status();
 }
-- 
2.43.0


From df50a429db98fe84a7d309b3e41e39f00b2aa10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:18 +0000
Subject: [PATCH 062/110] fix: builder should be able to create table manifest

TableManifest::create() followed by store() (used by the builder) left only
the backup file. The first store() call creates the manifest file from it.
---
 src/table_manifest.cc | 31 ++++++++++++++-----------------
 src/table_manifest.h  |  6 ++++--
 src/table_mgr.cc      |  2 +-
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index a1ee571..418a336 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -70,6 +70,7 @@ TableManifest::TableManifest(const TableMgr* table_mgr,
     : tableMgr(table_mgr)
     , fOps(_f_ops)
     , mFile(nullptr)
+    , beingCreated(false)
     , maxTableNum(NOT_INITIALIZED)
     , myLog(nullptr)
 {
@@ -99,9 +100,10 @@ Status TableManifest::create(const std::string& path,
 
     // NOTE: Write the backup file first, to make this manifest recoverable
     //       in case of crash in the middle of the initial setup.
-    //       The manifest file will be created by `finishCreate()`.
+    //       The manifest file will be created by the first `store()` call.
     Status s;
     EP( fOps->open(&mFile, mFileName + ".bak") );
+    beingCreated = true;
 
     // Initially there is only one level (level-0).
     levels.resize(1);
@@ -110,22 +112,6 @@ Status TableManifest::create(const std::string& path,
     return Status();
 }
 
-Status TableManifest::finishCreate() {
-    if (mFileName.empty() || !fOps || !mFile) return Status::NOT_INITIALIZED;
-
-    Status s;
-    EP( store(false) );
-    EP( fOps->fsync(mFile) );
-    fOps->close(mFile);
-    DELETE(mFile);
-
-    // Create the manifest file from the backup file.
-    EP( BackupRestore::restore(fOps, mFileName) );
-    EP( fOps->open(&mFile, mFileName) );
-
-    return Status();
-}
-
 Status TableManifest::load(const std::string& path,
                            const uint64_t prefix_num,
                            const std::string& filename)
@@ -402,6 +388,17 @@ Status TableManifest::store(bool call_fsync) {
     // Should truncate tail.
     fOps->ftruncate(mFile, ss.pos());
 
+    if (beingCreated) {
+        // Backup file is ready, create the manifest file from it.
+        EP( fOps->fsync(mFile) );
+        fOps->close(mFile);
+        DELETE(mFile);
+        EP( BackupRestore::restore(fOps, mFileName) );
+        EP( fOps->open(&mFile, mFileName) );
+        beingCreated = false;
+        return s;
+    }
+
     if (call_fsync) {
         s = fOps->fsync(mFile);
         if (s) {
diff --git a/src/table_manifest.h b/src/table_manifest.h
index ca8df2e..8c98419 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -176,8 +176,6 @@ public:
 
     Status create(const std::string& path,
                   const std::string& filename);
-    Status finishCreate();
-
     Status load(const std::string& path,
                 const uint64_t prefix_num,
                 const std::string& filename);
@@ -261,6 +259,10 @@ private:
      */
     FileHandle* mFile;
 
+    // `true` if the backup file is opened instead of the manifest file,
+    // as the manifest file is not created yet.
+    bool beingCreated;
+
     /**
      * DB path.
      */
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 5f83edb..73d2e24 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -294,7 +294,7 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         }
 
         // Create manifest file.
-        TC( mani->finishCreate() );
+        TC( mani->store(true) );
     }
 
     compactStatus.resize(numL0Partitions);
-- 
2.43.0


From 8be119fbd6b0f40e68bf15f8aa8d8fe6d7c12cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:18 +0000
Subject: [PATCH 063/110] fix: torn tail of log file should not drop synced
 records

If the tail of a log file is missing or torn due to crash, synced records
before that were lost when the first sequence number was not in the manifest
yet, or when the checksum of the unsynced tail did not match. Log files after
the gap should not be visible either.
---
 src/log_file.cc     | 13 ++++++++-----
 src/log_manifest.cc | 28 ++++++++++++++++++++++++++++
 src/memtable.cc     | 13 +++++++++++++
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index f13ea3f..0f3d378 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -241,10 +241,13 @@ Status LogFile::loadMemTable() {
     // Load to MemTable.
     mTable = new MemTable(this);
     mTable->setLogger(myLog);
-    EP( mTable->load( ss,
-                      memTableOnFileMeta.minSeq,
-                      memTableOnFileMeta.flushedSeq,
-                      memTableOnFileMeta.syncedSeq ) );
+    Status s_load = mTable->load( ss,
+                                  memTableOnFileMeta.minSeq,
+                                  memTableOnFileMeta.flushedSeq,
+                                  memTableOnFileMeta.syncedSeq );
+    // NOTE: The tail of the file can be missing due to crash.
+    if (!s_load && s_load != Status::INCOMPLETE_LOG) return s_load;
+
     if (okToCloseFHandle()) {
         EP( closeFHandle() );
     }
@@ -255,7 +258,7 @@ Status LogFile::loadMemTable() {
     logMgr->increaseOpenMemtable();
     logMgr->doBackgroundLogReclaimIfNecessary();
 
-    return Status();
+    return s_load;
 }
 
 Status LogFile::truncate(uint64_t seq_upto) {
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index a586d12..78b9ffc 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -304,6 +304,8 @@ Status LogManifest::load(const std::string& path,
 
     bool first_file_read = false;
     uint64_t last_max_seq = NOT_INITIALIZED;
+    bool prev_incomplete = false;
+    uint64_t prev_flushed_seq = NOT_INITIALIZED;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
         LogFile* l_file = new LogFile(logMgr);
         l_file->setLogger(myLog);
@@ -402,6 +404,29 @@ Status LogManifest::load(const std::string& path,
 
         s = l_file->load(l_filename, fLogOps, l_file_num,
                          min_seq, purged_seq, synced_seq);
+        if ( prev_incomplete && ( s || s == Status::INCOMPLETE_LOG ) ) {
+            // The tail of the previous log file is missing due to crash.
+            // If there is a gap between the previous file and this file, this file
+            // (and the others after it) should not be visible.
+            uint64_t first_seq = l_file->getMinSeqNum();
+            if ( valid_number(first_seq) &&
+                 valid_number(last_max_seq) &&
+                 first_seq > last_max_seq + 1 &&
+                 ( !valid_number(prev_flushed_seq) ||
+                   first_seq > prev_flushed_seq + 1 ) ) {
+                _log_warn(myLog, "previous log file is incomplete (max seq %s), "
+                          "first seq of log file %zu is %s, stop loading here",
+                          _seq_str(last_max_seq).c_str(),
+                          l_file_num,
+                          _seq_str(first_seq).c_str());
+                delete l_file;
+                maxLogFileNum.store(l_file_num-1, MOR);
+                lastSyncedLog.store(l_file_num-1, MOR);
+                break;
+            }
+        }
+        prev_incomplete = (s == Status::INCOMPLETE_LOG);
+        prev_flushed_seq = purged_seq;
         if (!s) {
             _s_warn(myLog) << "log file " << l_file_num << " read error: " << s;
             if ( s == Status::FILE_NOT_EXIST ||
@@ -476,6 +501,9 @@ Status LogManifest::load(const std::string& path,
         // NOTE: If the first sequence number is not known yet (i.e., empty file),
         //       the file should be found by any sequence number to be written.
         uint64_t start_seq = min_seq;
+        if (!valid_number(start_seq)) {
+            start_seq = l_file->getMinSeqNum();
+        }
         if (!valid_number(start_seq)) {
             start_seq = valid_number(last_max_seq) ? last_max_seq + 1 : 0;
         }
diff --git a/src/memtable.cc b/src/memtable.cc
index 5d15cf8..772cc38 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1032,6 +1032,11 @@ Status MemTable::load(RwSerializer& rws,
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
             last_seq = seq;
             num_record++;
+            if (!valid_number(minSeqNum)) {
+                // Manifest was not updated after writing the first record.
+                minSeqNum = seq;
+                startSeqNum = seq;
+            }
             last_valid_size = rws.pos();
 
         } else if (type == FlagType::FLUSH_MARKER) {
@@ -1071,6 +1076,14 @@ Status MemTable::load(RwSerializer& rws,
         syncedSeqNum = flushed_seq;
     }
 
+    if ( ( s == Status::CHECKSUM_ERROR || s == Status::UNKNOWN_LOG_FLAG ) &&
+         valid_number(last_seq) &&
+         ( !valid_number(synced_seq) || last_seq >= synced_seq ) ) {
+        // All synced records are intact. The rest was being written (i.e., not
+        // synced yet) when crash happened, so that is the same as missing data.
+        s = Status::INCOMPLETE_LOG;
+    }
+
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
         _log_err( myLog,
                   "failed to load memTable for log file %s %ld "
-- 
2.43.0


From 7412d6d79cf615e05dc66bec8b274a165b7339a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 064/110] fix: log file whose records are lost by crash should
 not confuse sequence number lookup

---
 src/log_manifest.cc | 11 ++++-------
 src/memtable.cc     | 13 +++++++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 78b9ffc..cf205ce 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -498,13 +498,10 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
-        // NOTE: If the first sequence number is not known yet (i.e., empty file),
-        //       the file should be found by any sequence number to be written.
-        uint64_t start_seq = min_seq;
-        if (!valid_number(start_seq)) {
-            start_seq = l_file->getMinSeqNum();
-        }
-        if (!valid_number(start_seq)) {
+        // NOTE: If there is no record in the file, the file should be found by
+        //       any sequence number to be written.
+        uint64_t start_seq = l_file->getMinSeqNum();
+        if (!valid_number(l_file->getMaxSeqNum()) || !valid_number(start_seq)) {
             start_seq = valid_number(last_max_seq) ? last_max_seq + 1 : 0;
         }
         addNewLogFile(l_file_num, l_file, start_seq);
diff --git a/src/memtable.cc b/src/memtable.cc
index 772cc38..d0a9204 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1067,6 +1067,19 @@ Status MemTable::load(RwSerializer& rws,
         syncedSeqNum = last_seq;
     }
 
+    if ( NOT_INITIALIZED == last_seq &&
+         !valid_number(flushed_seq) &&
+         valid_number(min_seq) ) {
+        // The records since `min_seq` are missing due to crash.
+        // The next record will follow the last synced one.
+        uint64_t next_seq = valid_number(synced_seq)
+                            ? synced_seq + 1 : NOT_INITIALIZED;
+        if (next_seq != min_seq) {
+            minSeqNum = next_seq;
+            startSeqNum = next_seq;
+        }
+    }
+
     if ( valid_number(flushed_seq) &&
          ( NOT_INITIALIZED == last_seq || last_seq < flushed_seq ) ) {
         // Same as above, but there is no more record.
-- 
2.43.0


From 641fc386c89f9d5b94f8978a3c3f56cbe21ee279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 065/110] fix: table manifest should be stored before table
 file removal

---
 src/table_compaction.cc | 17 ++++++++++++-----
 src/table_split.cc      |  7 +++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index ba4bc92..99c223a 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -544,13 +544,16 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         }
     }
 
+    // WARNING:
+    //   The table file can be removed once it is released, so that
+    //   the manifest file without it should be stored first.
+    mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
 
-    mani->store(true);
-
     // Update throttling rate.
     elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
     double write_rate = (double)num_records_read * 1000000 / elapsed_us;
@@ -748,12 +751,16 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         mani->removeTableFile(level, local_victim);
     }
 
+    // WARNING:
+    //   The table file can be removed once it is released, so that
+    //   the manifest file without it should be stored first.
+    mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
 
-    mani->store(true);
     _log_info(myLog, "in-place compaction at level %zu done, %zu us",
               level, tt.getUs());
 
@@ -988,11 +995,11 @@ Status TableMgr::compactL0(const CompactOptions& options,
         mani->removeTableFile(0, origin_table);
         if (merge_table) mani->removeTableFile(0, merge_table);
 
-        for (TableInfo*& table: tables) table->done();
-
         // Store manifest file.
         mani->store(true);
 
+        for (TableInfo*& table: tables) table->done();
+
     } else {
         // Level-extension mode:
         //   `compactLevel` already removed & synced files.
diff --git a/src/table_split.cc b/src/table_split.cc
index 7c7dacc..04975ad 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -517,14 +517,17 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
                target_table->minKey.toReadableString().c_str(),
                total_count, elapsed_us, write_rate );
 
+    // WARNING:
+    //   The table file can be removed once it is released, so that
+    //   the manifest file without it should be stored first.
+    mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
     if (target_table) target_table->done();
 
-    mani->store(true);
-
     return Status();
 
    } catch (Status ss) {
-- 
2.43.0


From 0804d0783b3124744768d294bdb5dd6663da71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 066/110] fix: fast index scan should compare full key with all
 overlapping tables

---
 src/table_compaction.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 99c223a..2abab31 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -350,16 +350,21 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             cur_rec.kv.key.size--;
         }
 
-        // Check if `params.key` is prefix of `next_table->minKey`.
-        if ( next_table &&
-             cur_rec.kv.key.size < next_table->minKey.size ) {
-            SizedBuf tmp(cur_rec.kv.key.size, next_table->minKey.data);
-            if (SizedBuf::cmp(cur_rec.kv.key, tmp) == 0) {
-                // It is prefix, should read the whole record.
-                local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
-                value_size = cur_rec.kv.value.size;
-                need_to_free = true;
+        // Check if `params.key` is prefix of min key of `next_table`, or that
+        // of the tables after that (they may be skipped at once).
+        for (auto entry = t_itr; entry != tables.end(); ++entry) {
+            const SizedBuf& min_key = (*entry)->minKey;
+            if (cur_rec.kv.key.size < min_key.size) {
+                SizedBuf tmp(cur_rec.kv.key.size, min_key.data);
+                if (SizedBuf::cmp(cur_rec.kv.key, tmp) == 0) {
+                    // It is prefix, should read the whole record.
+                    local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
+                    value_size = cur_rec.kv.value.size;
+                    need_to_free = true;
+                    break;
+                }
             }
+            if (cur_rec.kv.key < min_key) break;
         }
         update_next_table_info(cur_rec, params.offset, value_size);
 
-- 
2.43.0


From efd06e97de959d9595adecd1ddbde9f0150a46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 067/110] fix: log manifest should be stored before log file
 removal

---
 src/log_mgr.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c896e1d..5841603 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -308,9 +308,12 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     // Remove all log files after that.
     uint64_t lf_max = 0;
     mani->getMaxLogFileNum(lf_max);
+    // NOTE: Same as in flush, log files should not be removed
+    //       before storing the manifest file.
+    std::list<LogFileInfoGuard> removed_files;
     for (uint64_t ii = linfo->logFileNum + 1; ii <= lf_max; ++ii) {
         // Avoid loading memtable because of this call.
-        LogFileInfoGuard ll(mani->getLogFileInfoP(ii, true));
+        removed_files.emplace_back(mani->getLogFileInfoP(ii, true));
 
         // Remove file from manifest.
         mani->removeLogFile(ii);
@@ -327,6 +330,7 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     mani->setLastSyncedLog(linfo->logFileNum);
     lastFsyncedLog = NOT_INITIALIZED;
     mani->store(true);
+    removed_files.clear();
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
     DBMgr::get()->forceRemoveFiles();
@@ -1631,9 +1635,13 @@ Status LogMgr::flush(const FlushOptions& options,
     }
 
     // Remove log file except for ln_to.
+    // NOTE: The log files can be removed once they are released, so that
+    //       the manifest file without them should be stored first.
+    std::list<LogFileInfoGuard> removed_files;
     for (uint64_t ii = ln_from; ii < ln_to; ++ii) {
         // Avoid loading memtable because of this call.
-        LogFileInfoGuard ll(mani->getLogFileInfoP(ii, true));
+        removed_files.emplace_back(mani->getLogFileInfoP(ii, true));
+        LogFileInfoGuard& ll = removed_files.back();
 
         // If it is not immutable yet (happens when we flush without sync),
         // set it now.
@@ -1649,6 +1657,7 @@ Status LogMgr::flush(const FlushOptions& options,
     // Store log & table manifest file.
     EP( mani->store(true) );
     _log_debug(myLog, "Updated log manifest file.");
+    removed_files.clear();
 
     if (num_records_flushed) {
         adjustThrottling(num_records_flushed, tt.getSec(),
-- 
2.43.0


From 5da38d574b600dfa1446b1ab1775c3d93e5b0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 068/110] fix: stale bloom filter file should be removed along
 with stale table file

---
 src/table_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index b33b927..b9de112 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -379,6 +379,10 @@ Status TableFile::create(size_t level,
         _log_warn(myLog, "table %s already exists, remove it", filename.c_str());
         fOps->remove(filename);
     }
+    // The same for the bloom filter of the legacy file.
+    if (fOps->exist(filename + ".bf")) {
+        fOps->remove(filename + ".bf");
+    }
 
     const DBConfig* db_config = tableMgr->getDbConfig();
 
-- 
2.43.0


From 8b5e2d40d3f41293d213b571f1899b9383566eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:36 +0000
Subject: [PATCH 069/110] fix: log file with incomplete header should be
 treated as empty file

---
 src/log_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 0f3d378..e6bc052 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -221,8 +221,9 @@ Status LogFile::loadMemTable() {
 
     // Check footer and version.
     fileSize = fOps->eof(fHandle);
-    if (!fileSize) {
-        // If file is empty, treat it as a non-exist file.
+    if (fileSize < 8 + 4) {
+        // If file is empty (or even its header is torn due to crash, so that
+        // there is no record), treat it as a non-exist file.
         closeFHandle();
         return Status::FILE_NOT_EXIST;
     }
-- 
2.43.0


From 605b6fc112b4b698203e583abdd32299a0128853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:42 +0000
Subject: [PATCH 070/110] fix: remaining tail of previous log manifest should
 be ignored

---
 src/log_manifest.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index cf205ce..d769a04 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -266,8 +266,18 @@ Status LogManifest::load(const std::string& path,
     size_t file_size = fOps->eof(mFile);
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
-    // Footer check
     RwSerializer ss(fOps, mFile);
+
+    // If crash happens after writing a smaller manifest but before truncating
+    // the tail of the previous one, the latter remains and should be ignored.
+    const size_t header_size = 28, entry_size = 32;
+    if (file_size >= header_size + 16) {
+        ss.pos(24);
+        size_t actual_size = header_size + entry_size * (size_t)ss.getU32(s) + 16;
+        if (actual_size < file_size) file_size = actual_size;
+    }
+
+    // Footer check
     uint8_t chk_footer[8];
     ss.pos(file_size - 16);
     ss.get(chk_footer, 8);
-- 
2.43.0


From fb3e4658c36679d53e8a00f560c5e452772705be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:42 +0000
Subject: [PATCH 071/110] fix: batch should not be appended to log file loaded
 from disk

---
 src/log_mgr.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 5841603..c6a27bd 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -837,10 +837,13 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
-    if ( !g_li->file->isValidToWrite() &&
-         !valid_number(g_li->file->getMaxSeqNum()) ) {
-        // Empty log file which is not writable (i.e., loaded from disk),
-        // it does not know the sequence number to start.
+    if ( g_li->file->isImmutable() ||
+         ( !g_li->file->isValidToWrite() &&
+           !valid_number(g_li->file->getMaxSeqNum()) ) ) {
+        // 1) Log file loaded from disk: we should not append to it, as its tail
+        //    can be torn by crash, OR
+        // 2) Empty log file which is not writable: it does not know the
+        //    sequence number to start.
         EP( addNewLogFile(g_li, g_li) );
     }
 
-- 
2.43.0


From 646d68bf6771cf2e79918aa9ea7fce13b88b589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:08 +0000
Subject: [PATCH 072/110] fix: L0 compaction should not use stale tables or
 leak them

---
 src/table_compaction.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 2abab31..658437c 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -807,9 +807,21 @@ Status TableMgr::compactL0(const CompactOptions& options,
     if (!compactStatus[hash_num]->compare_exchange_strong(exp, val)) {
         // Compaction is already in progress.
         _log_warn(myLog, "compaction hash %zu is in progress", hash_num);
+        for (TableInfo*& table: tables) table->done();
         return Status::OPERATION_IN_PROGRESS;
     }
 
+    // NOTE: The tables may have been compacted by other thread before we set
+    //       `compactStatus`, so that we should get them again.
+    for (TableInfo*& table: tables) table->done();
+    tables.clear();
+    s = mani->getL0Tables(hash_num, tables);
+    if (!s) {
+        compactStatus[hash_num]->store(false);
+        _log_warn(myLog, "tables of hash %zu not found", hash_num);
+        return s;
+    }
+
     std::stringstream s_log_msg_prefix;
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     SimpleLogger* global_log = db_mgr->getLogger();
-- 
2.43.0


From 75731525fc27d012425735afb225f3a8463c8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:08 +0000
Subject: [PATCH 073/110] fix: checkpoint should not be in the middle of batch
 or ignore the last record

---
 src/log_mgr.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c6a27bd..811d2b0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1834,15 +1834,27 @@ Status LogMgr::checkpoint(uint64_t& seq_num_out, bool call_fsync) {
     Status s;
     uint64_t log_file_num = 0;
 
-   for(;;) {
+   {
+    // NOTE: Checkpoint should not be in the middle of atomic batch.
+    std::unique_lock<std::recursive_mutex> wm(writeMutex);
+
     // Get latest log file.
     EP(mani->getMaxLogFileNum(log_file_num));
-    LogFileInfoGuard g_li(mani->getLogFileInfoP(log_file_num));
-    if (g_li.empty() || g_li.ptr->isRemoved()) continue;
+    for (;;) {
+        LogFileInfoGuard g_li(mani->getLogFileInfoP(log_file_num));
+        if (g_li.empty() || g_li.ptr->isRemoved()) break;
+
+        if (!valid_number(g_li->file->getMaxSeqNum()) && log_file_num) {
+            // Latest log file is still empty, the last record is in
+            // the previous file.
+            log_file_num--;
+            continue;
+        }
 
-    // If this file is already immutable: force append.
-    EP(g_li->file->checkpoint(seq_num_out));
-    break;
+        // If this file is already immutable: force append.
+        EP(g_li->file->checkpoint(seq_num_out));
+        break;
+    }
    }
     // Durable sync all.
     s = sync(call_fsync);
-- 
2.43.0


From 9e451f8de099f607f8f24136bc59ad29ccb2f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:16 +0000
Subject: [PATCH 074/110] fix: batch should not be partially visible or written
 by concurrent read, sync or flush

---
 src/global_batch.cc |   2 +-
 src/log_iterator.cc |  15 +++----
 src/log_mgr.cc      | 101 ++++++++++++++++++++++++++------------------
 src/log_mgr.h       |  25 ++++++++++-
 src/memtable.cc     |   4 ++
 5 files changed, 94 insertions(+), 53 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..b50c226 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->clearVisibleSeqBarrier();
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index a9614f2..cdcd62c 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -93,6 +93,11 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     // No log yet.
     if (!s) return s;
 
+    // NOTE: It should not be in the middle of batch, and the latest log
+    //       file can be empty.
+    s = log_mgr->getMaxSeqNum(maxSeqSnap);
+    if (!s) maxSeqSnap = 0;
+
     if (snap_handle) {
         assert(snap_handle->sn);
         if (maxSeqSnap > snap_handle->sn->chkNum) {
@@ -105,16 +110,6 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     if (valid_number(min_seq) && minSeqSnap < min_seq) minSeqSnap = min_seq;
     if (valid_number(max_seq) && max_seq < maxSeqSnap) maxSeqSnap = max_seq;
 
-    // WARNING:
-    //   The same as the comment in `LogMgr::get()`,
-    //   fetching `visibleSeqBarrier` should be done AFTER
-    //   fetching max seq number (`getAvailSeqRange` above).
-    uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
-         maxSeqSnap > visible_seq_barrier ) {
-        maxSeqSnap = visible_seq_barrier;
-    }
-
     // No available records in log section.
     if (minSeqSnap > maxSeqSnap) return Status::OUT_OF_RANGE;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 811d2b0..49d7ebd 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,9 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
+    , lastBatchBoundary(0)
+    , batchEpoch(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -734,7 +736,7 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     getMaxSeqNum(max_seq); // empty log should be tolerated.
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        clearVisibleSeqBarrier();
     } );
 
     EP( checkBatchValidity(batch) );
@@ -750,7 +752,17 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
 }
 
 void LogMgr::setVisibleSeqBarrier(uint64_t to) {
-    visibleSeqBarrier.store(to, MOR);
+    lastBatchBoundary.store(to);
+    visibleSeqBarrier.store(to);
+    batchEpoch.fetch_add(1);
+}
+
+void LogMgr::clearVisibleSeqBarrier() {
+    uint64_t max_seq = 0;
+    getMaxSeqNumInternal(max_seq); // empty log should be tolerated.
+    lastBatchBoundary.store(max_seq);
+    visibleSeqBarrier.store(NOT_INITIALIZED);
+    batchEpoch.fetch_add(1);
 }
 
 void LogMgr::setGlobalBatch(uint64_t fwd_barrier,
@@ -782,7 +794,21 @@ uint64_t LogMgr::getVisibleSeqBarrier() {
         // 2) The entire process of global batch is done,
         // then the same as the normal case.
     }
-    return visibleSeqBarrier.load(MOR);
+    return visibleSeqBarrier.load();
+}
+
+uint64_t LogMgr::getVisibleMaxSeqNum(LogFile* file) {
+    uint64_t epoch = batchEpoch.load();
+    uint64_t barrier = getVisibleSeqBarrier();
+    uint64_t max_seq = file->getMaxSeqNum();
+    if (epoch != batchEpoch.load()) {
+        // A batch began or ended in the meantime, `max_seq` may be in
+        // the middle of it.
+        barrier = lastBatchBoundary.load();
+    }
+    // If the file is empty, nothing is visible.
+    if (!valid_number(max_seq)) return 0;
+    return std::min(max_seq, barrier);
 }
 
 Status LogMgr::checkBatchValidity(const std::list<Record>& batch)
@@ -881,8 +907,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = gg->file->getMaxSeqNum();
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
     if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
-           seq_num > visible_seq_barrier ) ) {
+         seq_num > visible_seq_barrier ) {
         return Status::KEY_NOT_FOUND;
     }
 
@@ -949,14 +974,7 @@ Status LogMgr::get(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1068,14 +1086,7 @@ Status LogMgr::getNearest(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1164,14 +1175,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
@@ -1310,7 +1314,6 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     uint64_t last_synced_log = ln_from;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1318,7 +1321,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
+        // NOTE: Should not write a part of batch.
+        EP( li->file->flushMemTable( getVisibleMaxSeqNum(li->file),
                                      after_sync ) );
         if (call_fsync) {
             EP( li->file->sync() );
@@ -1463,7 +1467,7 @@ Status LogMgr::flush(const FlushOptions& options,
 
     uint64_t seq_num_local = seq_num;
     uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
+    if (seq_barrier < seq_num_local) {
         seq_num_local = seq_barrier;
     }
 
@@ -1501,7 +1505,9 @@ Status LogMgr::flush(const FlushOptions& options,
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
             uint64_t seq_num_limit = NOT_INITIALIZED;
             if (options.beyondLastSync) {
-                seq_num_limit = ll->file->getMaxSeqNum();
+                // NOTE: Should not flush a part of batch.
+                seq_num_limit = getVisibleMaxSeqNum(ll->file);
+                if (!seq_num_limit) seq_num_limit = NOT_INITIALIZED;
             } else {
                 seq_num_limit = ll->file->getSyncedSeqNum();
             }
@@ -1924,17 +1930,32 @@ Status LogMgr::getAvailSeqRange(uint64_t& min_seq,
 }
 
 Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
+    Status s;
+    uint64_t max_seq = 0;
+    uint64_t epoch = batchEpoch.load();
+    uint64_t barrier = getVisibleSeqBarrier();
+    s = getMaxSeqNumInternal(max_seq);
+    if (!s) return s;
+    if (epoch != batchEpoch.load()) {
+        // A batch began or ended in the meantime, `max_seq` may be in
+        // the middle of it.
+        barrier = lastBatchBoundary.load();
+    }
+    max_seq = std::min(max_seq, barrier);
+    if (!max_seq) {
+        // The very first batch is not visible yet.
+        return Status::LOG_NOT_EXIST;
+    }
+    seq_num_out = max_seq;
+    return Status();
+}
+
+Status LogMgr::getMaxSeqNumInternal(uint64_t& seq_num_out) {
     Status s;
     uint64_t ln_max = 0;
     uint64_t max_seq = NOT_INITIALIZED;
     const size_t MAX_TRY = 16;
 
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
-        seq_num_out = visible_seq_barrier;
-        return Status();
-    }
-
    for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
     EP( mani->getMaxLogFileNum(ln_max) );
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 1a67b74..ad6e11d 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -169,11 +169,19 @@ public:
 
     void setVisibleSeqBarrier(uint64_t to);
 
+    void clearVisibleSeqBarrier();
+
     void setGlobalBatch(uint64_t fwd_barrier,
                         std::shared_ptr<GlobalBatchStatus> status);
 
     uint64_t getVisibleSeqBarrier();
 
+    /**
+     * Get the max sequence number of the given log file, that does not
+     * split any batch.
+     */
+    uint64_t getVisibleMaxSeqNum(LogFile* file);
+
     Status checkBatchValidity(const std::list<Record>& batch);
 
     Status setMultiInternal(const std::list<Record>& batch,
@@ -241,6 +249,9 @@ public:
     Status getAvailSeqRange(uint64_t& min_seq,
                             uint64_t& max_seq);
     Status getMaxSeqNum(uint64_t& seq_num_out);
+
+    Status getMaxSeqNumInternal(uint64_t& seq_num_out);
+
     Status getMinSeqNum(uint64_t& seq_num_out);
     Status getLastFlushedSeqNum(uint64_t& seq_num_out);
     Status getLastSyncedSeqNum(uint64_t& seq_num_out);
@@ -434,11 +445,21 @@ protected:
     std::atomic<int64_t> numSetRecords;
 
     /**
-     * If non-zero, records up to this number (inclusive) will be
-     * visible to user.
+     * If not `NOT_INITIALIZED`, records up to this number (inclusive)
+     * will be visible to user.
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
+    /**
+     * The max sequence number at the last beginning or end of batch.
+     */
+    std::atomic<uint64_t> lastBatchBoundary;
+
+    /**
+     * Increased by one at each beginning and end of batch.
+     */
+    std::atomic<uint64_t> batchEpoch;
+
     /**
      * Global batch.
      */
diff --git a/src/memtable.cc b/src/memtable.cc
index d0a9204..5e3b746 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1317,6 +1317,10 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
     if (valid_number(upto) && upto < seqnum_upto) {
         seqnum_upto = upto;
     }
+    if (seqnum_upto < minSeqNum) {
+        // No log in this file up to the given number.
+        return Status();
+    }
 
     // Flush never happened: start from min seq num
     // Otherwise: start from last sync seq num + 1
-- 
2.43.0


From ae7c509e9df114bd848ecd44f9e677e71c021156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:16 +0000
Subject: [PATCH 075/110] fix: level extension should not invalidate the level
 info being read

---
 src/table_manifest.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 418a336..2159769 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -437,8 +437,8 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        // NOTE: Other threads may read `levels` without the lock.
+        levels.push_back(new LevelInfo());
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
-- 
2.43.0


From 8c65f9c9d304dcb398d14f9121d7703de669c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:16 +0000
Subject: [PATCH 076/110] fix: read and iteration should see the level added in
 the meantime

---
 src/table_iterator.cc |  4 +++-
 src/table_mgr.cc      | 31 ++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index ad73bce..dd08718 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -47,6 +47,7 @@ Status TableMgr::Iterator::addTableItr(DB* snap_handle, TableInfo* t_info) {
     ItrItem* ctx = new ItrItem();
     ctx->tInfo = t_info;
     ctx->tItr = t_itr;
+    if (tables.size() <= t_info->level) tables.resize(t_info->level + 1);
     tables[t_info->level].push_back(ctx);
 
     // If this iterator is out-of-range, `lastRec` will be empty.
@@ -141,7 +142,8 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
     } else {
         // Normal
-        for (size_t ii=0; ii<n_levels; ++ii) {
+        // NOTE: New level can be added in the meantime, tables may be moved to it.
+        for (size_t ii=0; ii<tMgr->mani->getNumLevels(); ++ii) {
             std::list<TableInfo*> t_info_ret;
             SizedBuf empty_key;
             if (ii == 0) {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 73d2e24..12a215b 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -513,13 +513,26 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     SizedBuf empty_key;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: New level can be added in the meantime, tables may be moved to it.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         s = mani->getTablesRange(ii, empty_key, empty_key, *t_list);
         if (!s) continue;
     }
 
+    // NOTE: If a table is being migrated to the next level, both levels
+    //       can refer to the same file.
+    std::set<TableFile*> files;
+    auto entry = t_list->begin();
+    while (entry != t_list->end()) {
+        TableInfo* info = *entry;
+        if (files.insert(info->file).second) {
+            entry++;
+        } else {
+            info->done();
+            entry = t_list->erase(entry);
+        }
+    }
+
     // If `checkpoint == 0`, take the latest one.
     for (auto& entry: *t_list) {
         TableInfo* info = entry;
@@ -567,9 +580,9 @@ Status TableMgr::get(DB* snap_handle,
 
     Status s;
     Record latest_rec;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: New level can be added in the meantime, tables may be moved to it.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             s = getTablesOfSnapshot(snap_handle, ii, tables);
@@ -712,12 +725,12 @@ Status TableMgr::getNearest(DB* snap_handle,
     };
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: New level can be added in the meantime, tables may be moved to it.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             s = getTablesOfSnapshot(snap_handle, ii, tables);
@@ -773,9 +786,9 @@ Status TableMgr::getPrefix(DB* snap_handle,
     if (db_config->logSectionOnly) return Status::KEY_NOT_FOUND;
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: New level can be added in the meantime, tables may be moved to it.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             s = getTablesOfSnapshot(snap_handle, ii, tables);
-- 
2.43.0


From 06f32ea32dc517af3ff2024c042fa1b59a37c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:35 +0000
Subject: [PATCH 077/110] fix: opening and closing the same database
 concurrently should be safe

---
 src/db_group.cc |  3 +++
 src/db_mgr.cc   | 26 +++++++++++++++++++++-----
 src/db_mgr.h    | 20 ++++++++++++++++++++
 src/jungle.cc   |  4 ++++
 4 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/db_group.cc b/src/db_group.cc
index 9d004da..5f35e4a 100644
--- a/src/db_group.cc
+++ b/src/db_group.cc
@@ -92,6 +92,9 @@ Status DBGroup::openDB(DB** ptr_out,
 
     DBMgr* db_mgr = DBMgr::get();
     DB* src = p->defaultDB;
+
+    // NOTE: The same as that in `DB::open`.
+    DBMgr::OpenGuard g_open(db_mgr, src->p->path);
     DB* db = db_mgr->openExisting(src->p->path, db_name);
     if (db) {
         *ptr_out = db;
diff --git a/src/db_mgr.cc b/src/db_mgr.cc
index a9b87b8..a4a90f8 100644
--- a/src/db_mgr.cc
+++ b/src/db_mgr.cc
@@ -294,6 +294,21 @@ Status DBMgr::addLogReclaimer() {
     return Status();
 }
 
+DBMgr::OpenGuard::OpenGuard(DBMgr* _mgr, const std::string& _path)
+    : mgr(_mgr), path(_path)
+{
+    std::unique_lock<std::mutex> l(mgr->pathsBeingOpenedLock);
+    while (!mgr->pathsBeingOpened.insert(path).second) {
+        mgr->pathsBeingOpenedCv.wait(l);
+    }
+}
+
+DBMgr::OpenGuard::~OpenGuard() {
+    std::lock_guard<std::mutex> l(mgr->pathsBeingOpenedLock);
+    mgr->pathsBeingOpened.erase(path);
+    mgr->pathsBeingOpenedCv.notify_all();
+}
+
 DB* DBMgr::openExisting(const std::string& path, const std::string& kvs_name) {
     std::lock_guard<std::mutex> l(dbMapLock);
 
@@ -344,15 +359,17 @@ Status DBMgr::close(DB* db) {
     if (!db_wrap)
         return Status();
 
+    // NOTE: Reference counter should be changed under the lock, otherwise
+    //       other thread can find this handle while it is being destroyed.
+    std::lock_guard<std::mutex> l(dbMapLock);
+
     if (db_wrap->refCount.load(MOR) == 0)
         return Status::ALREADY_CLOSED;
 
-    uint64_t expected = 1;
-    uint64_t val = 0;
-    if (db_wrap->refCount.compare_exchange_weak(expected, val)) {
+    uint64_t ref_c = db_wrap->refCount.fetch_sub(1, MOR);
+    if (ref_c == 1) {
         // Destroy DB handle.
         _log_debug(db->p->myLog, "Destroy DB %p", db);
-        std::lock_guard<std::mutex> l(dbMapLock);
         skiplist_erase_node(&dbMap, &db_wrap->snode);
         skiplist_wait_for_free(&db_wrap->snode);
         if (db->p->dbGroup) {
@@ -364,7 +381,6 @@ Status DBMgr::close(DB* db) {
         delete db_wrap;
         delete db;
     } else {
-        uint64_t ref_c = db_wrap->refCount.fetch_sub(1, MOR);
         _log_debug(db->p->myLog, "Decrease DB %p ref_count = %ld", db, ref_c);
     }
 
diff --git a/src/db_mgr.h b/src/db_mgr.h
index 0267c4d..69dc32e 100644
--- a/src/db_mgr.h
+++ b/src/db_mgr.h
@@ -26,8 +26,10 @@ limitations under the License.
 #include "simple_thread_pool.h"
 
 #include <atomic>
+#include <condition_variable>
 #include <list>
 #include <mutex>
+#include <set>
 #include <string>
 #include <unordered_map>
 
@@ -88,6 +90,19 @@ public:
 
     Status addLogReclaimer();
 
+    /**
+     * Only one thread can open databases in the given path at a time.
+     * It is held during the lifetime of this guard.
+     */
+    class OpenGuard {
+    public:
+        OpenGuard(DBMgr* mgr, const std::string& path);
+        ~OpenGuard();
+    private:
+        DBMgr* mgr;
+        std::string path;
+    };
+
     DB* openExisting(const std::string& path, const std::string& kvs_name);
     Status assignNew(DB* db);
 
@@ -172,6 +187,11 @@ private:
     skiplist_raw dbMap;
     std::mutex dbMapLock;
 
+    // Paths being opened, and its lock.
+    std::set<std::string> pathsBeingOpened;
+    std::mutex pathsBeingOpenedLock;
+    std::condition_variable pathsBeingOpenedCv;
+
     // Worker manager.
     WorkerMgr* wMgr;
 
diff --git a/src/jungle.cc b/src/jungle.cc
index 37f6b6f..4a6db49 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -59,6 +59,10 @@ Status DB::open(DB** ptr_out,
 
     DBMgr* db_mgr = DBMgr::get();
     std::string empty_kvs_name;
+
+    // NOTE: If multiple threads open the same DB at the same time, they
+    //       should not load (and store) the same files individually.
+    DBMgr::OpenGuard g_open(db_mgr, path);
     DB* db = db_mgr->openExisting(path, empty_kvs_name);
     if (db) {
         _log_info(db->p->myLog, "Open existing DB %s %p", path.c_str(), db);
-- 
2.43.0


From b9a4594f7f608ac25461ccdfcc388d84ed2d3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:35 +0000
Subject: [PATCH 078/110] fix: iterator and snapshot should not see records
 flushed while being opened

---
 src/db_internal.h |  5 +++++
 src/iterator.cc   | 24 ++++++++++++++++++++++++
 src/jungle.cc     | 37 ++++++++++++++++++++++++++-----------
 src/log_mgr.cc    |  5 +++++
 src/log_mgr.h     | 12 ++++++++++++
 5 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 82c50e9..f735f87 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -280,6 +280,11 @@ public:
                          const SizedBuf& cur_key,
                          const bool is_prev = false);
 
+    // Return `true` if records beyond the snapshot of the log iterator
+    // could be flushed into tables while opening the table iterator.
+    // In such a case, the iterator should be initialized again.
+    bool needToRetryInit(uint64_t max_seq_in_tables, ItrItem* ctx_log);
+
     Type type;
     DB* db;
     //LogMgr::Iterator logItr;
diff --git a/src/iterator.cc b/src/iterator.cc
index 73e7f13..2e0b08c 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -26,6 +26,16 @@ Iterator::~Iterator() {
     delete p;
 }
 
+bool Iterator::IteratorInternal::needToRetryInit(uint64_t max_seq_in_tables,
+                                                 ItrItem* ctx_log)
+{
+    // Tables of snapshot are not changed by flush.
+    if (db->sn) return false;
+    uint64_t cur_max = db->p->logMgr->getMaxSeqInTables();
+    return cur_max != max_seq_in_tables &&
+           cur_max > ctx_log->logItr->getMaxSeqSnap();
+}
+
 Status Iterator::init(DB* dd,
                       const SizedBuf& start_key,
                       const SizedBuf& end_key)
@@ -40,6 +50,8 @@ Status Iterator::init(DB* dd,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
+    uint64_t max_seq_in_tables = p->db->p->logMgr->getMaxSeqInTables();
+
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
     ctx_log->logItr = new LogMgr::Iterator();
@@ -80,6 +92,11 @@ Status Iterator::init(DB* dd,
     }
     p->itrs.push_back(ctx_table);
 
+    if (p->needToRetryInit(max_seq_in_tables, ctx_log)) {
+        close();
+        return init(dd, start_key, end_key);
+    }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
@@ -116,6 +133,8 @@ Status Iterator::initSN(DB* db,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
+    uint64_t max_seq_in_tables = p->db->p->logMgr->getMaxSeqInTables();
+
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
     ctx_log->logItr = new LogMgr::Iterator();
@@ -148,6 +167,11 @@ Status Iterator::initSN(DB* db,
     }
     p->itrs.push_back(ctx_table);
 
+    if (p->needToRetryInit(max_seq_in_tables, ctx_log)) {
+        close();
+        return initSN(db, min_seq, max_seq);
+    }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
diff --git a/src/jungle.cc b/src/jungle.cc
index 4a6db49..6b40a5e 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -288,7 +288,6 @@ Status DB::openSnapshot(DB** snap_out,
     Status s;
     EP( p->checkHandleValidity() );
 
-    uint64_t chk_local = checkpoint;
     if (checkpoint) {
         // If checkpoint is given, find exact match.
         std::list<uint64_t> chk_nums;
@@ -302,19 +301,35 @@ Status DB::openSnapshot(DB** snap_out,
             }
         }
         if (!found) return Status::INVALID_CHECKPOINT;
-    } else {
-        // If 0, take the latest snapshot.
-        // NOTE: Should tolerate error for empty DB.
-        p->logMgr->getMaxSeqNum(chk_local);
     }
-    uint64_t last_flush_seq = 0;
-    p->logMgr->getLastFlushedSeqNum(last_flush_seq);
 
-    DB* snap = new DB(this, last_flush_seq, chk_local);
+    DB* snap = nullptr;
+    while (true) {
+        uint64_t max_seq_in_tables = p->logMgr->getMaxSeqInTables();
+        uint64_t chk_local = checkpoint;
+        if (!checkpoint) {
+            // If 0, take the latest snapshot.
+            // NOTE: Should tolerate error for empty DB.
+            p->logMgr->getMaxSeqNum(chk_local);
+        }
+        uint64_t last_flush_seq = 0;
+        p->logMgr->getLastFlushedSeqNum(last_flush_seq);
 
-    p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
-    // Maybe need same parameter to logList above.
-    p->tableMgr->openSnapshot(snap, chk_local, snap->sn->tableList);
+        snap = new DB(this, last_flush_seq, chk_local);
+
+        p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
+        // Maybe need same parameter to logList above.
+        p->tableMgr->openSnapshot(snap, chk_local, snap->sn->tableList);
+
+        uint64_t cur_max = p->logMgr->getMaxSeqInTables();
+        if (cur_max == max_seq_in_tables || cur_max <= chk_local) break;
+
+        // Records beyond the snapshot could be flushed into tables
+        // in the meantime, try again.
+        p->logMgr->closeSnapshot(snap);
+        p->tableMgr->closeSnapshot(snap);
+        delete snap;
+    }
     *snap_out = snap;
 
     return Status();
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 49d7ebd..8aee3ca 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -42,6 +42,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , visibleSeqBarrier(NOT_INITIALIZED)
     , lastBatchBoundary(0)
     , batchEpoch(0)
+    , maxSeqInTables(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -1585,6 +1586,10 @@ Status LogMgr::flush(const FlushOptions& options,
                 checkpoints.clear();
             }
 #endif
+            // From now on, tables may contain newer records.
+            if (maxSeqInTables.load() < seq_num_local) {
+                maxSeqInTables.store(seq_num_local);
+            }
             EP( table_mgr->setBatch(records, checkpoints) );
             EP( table_mgr->storeManifest() );
             _log_debug(myLog, "Updated table files.");
diff --git a/src/log_mgr.h b/src/log_mgr.h
index ad6e11d..808ca0c 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -252,6 +252,7 @@ public:
 
     Status getMaxSeqNumInternal(uint64_t& seq_num_out);
 
+    uint64_t getMaxSeqInTables() const { return maxSeqInTables.load(); }
     Status getMinSeqNum(uint64_t& seq_num_out);
     Status getLastFlushedSeqNum(uint64_t& seq_num_out);
     Status getLastSyncedSeqNum(uint64_t& seq_num_out);
@@ -307,6 +308,11 @@ public:
         Status gotoBegin();
         Status gotoEnd();
         Status close();
+
+        /**
+         * Records beyond this number are not visible to this iterator.
+         */
+        uint64_t getMaxSeqSnap() const { return maxSeqSnap; }
     private:
         enum Type {
             BY_KEY = 0,
@@ -460,6 +466,12 @@ protected:
      */
     std::atomic<uint64_t> batchEpoch;
 
+    /**
+     * Upper bound of sequence numbers flushed into tables since this
+     * log manager was opened, including the flush in progress.
+     */
+    std::atomic<uint64_t> maxSeqInTables;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From a0a8b3cf4d70992b623a5fd9b822b2d76b6109a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:14:54 +0000
Subject: [PATCH 079/110] fix: nearest search should look beyond adjacent
 tables without matching records

---
 src/table_manifest.cc |  4 ++-
 src/table_mgr.cc      | 66 ++++++++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 2159769..80c194e 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -764,7 +764,9 @@ Status TableManifest::getTablesNearest(const size_t level,
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
         if (cursor) {
-            skiplist_node* cur_prev = s_opt.isSmaller()
+            TableInfo* t_target = _get_entry(cursor, TableInfo, snode);
+            skiplist_node* cur_prev = ( s_opt.isSmaller() ||
+                                        t_target->prevTableSearchRequired )
                                       ? skiplist_prev(l_info->tables, cursor)
                                       : nullptr;
             skiplist_node* cur_next = s_opt.isGreater()
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 12a215b..c26ea42 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -740,31 +740,51 @@ Status TableMgr::getNearest(DB* snap_handle,
         if (!s) continue;
 
         bool found_intolerable_error = false;
-        for (TableInfo* table: tables) {
-            if (found_intolerable_error) {
-                table->done();
-                continue;
-            }
+        bool found_in_level = false;
+        auto search_tables = [&]() {
+            for (TableInfo* table: tables) {
+                if (found_intolerable_error) {
+                    table->done();
+                    continue;
+                }
 
-            Record returned_rec;
-            // WARNING: SHOULD NOT free `key` here
-            //          as it is given by caller.
-            s = table->file->getNearest( snap_handle,
-                                         key,
-                                         returned_rec,
-                                         s_opt,
-                                         meta_only );
-            if (snap_handle && s == Status::SNAPSHOT_NOT_FOUND) {
-                // The table didn't have any data at the moment of snapshot.
-                s = Status::KEY_NOT_FOUND;
-            }
-            if (s) {
-                update_cur_nearest(returned_rec);
-            } else if (s != Status::KEY_NOT_FOUND) {
-                // This is intolerable error.
-                found_intolerable_error = true;
+                Record returned_rec;
+                // WARNING: SHOULD NOT free `key` here
+                //          as it is given by caller.
+                s = table->file->getNearest( snap_handle,
+                                             key,
+                                             returned_rec,
+                                             s_opt,
+                                             meta_only );
+                if (snap_handle && s == Status::SNAPSHOT_NOT_FOUND) {
+                    // The table didn't have any data at the moment of snapshot.
+                    s = Status::KEY_NOT_FOUND;
+                }
+                if (s) {
+                    found_in_level = true;
+                    update_cur_nearest(returned_rec);
+                } else if (s != Status::KEY_NOT_FOUND) {
+                    // This is intolerable error.
+                    found_intolerable_error = true;
+                }
+                table->done();
             }
-            table->done();
+        };
+        search_tables();
+
+        if ( !snap_handle && ii > 0 &&
+             !found_in_level && !found_intolerable_error ) {
+            // NOTE:
+            //   Adjacent tables do not have any matching record, for example
+            //   all of their records were removed by compaction. The nearest
+            //   record may exist in farther tables in the same level.
+            SizedBuf empty_key;
+            tables.clear();
+            s = mani->getTablesRange( ii,
+                                      s_opt.isGreater() ? key : empty_key,
+                                      s_opt.isGreater() ? empty_key : key,
+                                      tables );
+            if (s) search_tables();
         }
 
         if (found_intolerable_error) {
-- 
2.43.0


From 52b6710beac09de756245e4b8f932c781d60081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 080/110] fix: snapshot of log store should reload evicted
 memtables

---
 src/log_mgr.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 8aee3ca..1cb2c79 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -937,6 +937,9 @@ Status LogMgr::get(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // Memtable may have been evicted (log store mode).
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->get(chk_local, key, rec_out_local, true, true);
             if (s) {
                 rec_out_local.copyTo(rec_out);
@@ -1041,6 +1044,9 @@ Status LogMgr::getNearest(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // Memtable may have been evicted (log store mode).
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                          true, true, s_opt);
             if (s) {
@@ -1144,6 +1150,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // Memtable may have been evicted (log store mode).
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->getPrefix(chk_local, prefix, cb_func, true, true);
             if (s == Status::OPERATION_STOPPED) return s;
             entry++;
-- 
2.43.0


From 35a67430a9afaf1724944018b4a3830e30a00328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 081/110] fix: flush should not go below the first log file
 after purging unsynced logs

---
 src/log_mgr.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 1cb2c79..3a9fa36 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1503,6 +1503,14 @@ Status LogMgr::flush(const FlushOptions& options,
         }
     }
 
+    if (ln_to < ln_from) {
+        // Unsynced logs can be purged if sequence number is given, so that
+        // the last synced log file may not exist anymore.
+        _log_warn(myLog, "no synced log file to be flushed: "
+                  "ln_from %lu ln_to %lu", ln_from, ln_to);
+        return Status::LOG_NOT_SYNCED;
+    }
+
     if (seq_num_local == NOT_INITIALIZED || !options.purgeOnly) {
         // Purge all synced (checkpointed) logs.
         // If sequence number is given, it shouldn't go beyond them.
-- 
2.43.0


From d25ee4c0fd4ad3a76918bd5637706245844cd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 082/110] fix: memtable eviction and log file destruction
 should be atomic with reference counting

---
 src/log_manifest.h | 86 ++++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 61 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 6ad5edf..cfcf25b 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -131,75 +131,39 @@ struct LogFileInfo {
         } else {
             assert(refCount);
         }
-        // WARNING: MONSTOR-11561
-        //   We should check `removed` or `evicted` flag first
-        //   and then decrease `refCount`.
-        //
-        //   e.g.)
-        //     T1: done(), decrease refCount to 0, count = 1.
-        //       --- context switch ---
-        //     T2: Increase ref count to 1.
-        //     T2: Do flush, remove file, removed = true.
-        //     T2: done(), decrease refCount to 0, count = 1.
-        //     T2: removed == true && count == 1, destroy the file.
-        //       --- context switch ---
-        //     T1: removed == true && count == 1, destroy the file.
-        if (removed) {
-            uint64_t snap_count = 0;
-            uint64_t ref_count = 0;
-            bool destroy_file = false;
+        bool destroy_file = false;
+        {   // WARNING:
+            //   Decreasing the counter, checking `removed` (MONSTOR-11561) and
+            //   `evicted` flags, and purging the memtable should be done
+            //   atomically. Otherwise, a file can be destroyed twice, leaked,
+            //   or destroyed while its memtable is being purged.
+            std::lock_guard<std::mutex> l(evictionLock);
             if (snapshot) {
-                snap_count = snapCount.fetch_sub(1);
-                ref_count = refCount;
-                destroy_file = (snap_count == 1 && ref_count == 0);
+                snapCount.fetch_sub(1);
             } else {
-                snap_count = snapCount;
-                ref_count = refCount.fetch_sub(1);
-                destroy_file = (snap_count == 0 && ref_count == 1);
+                refCount.fetch_sub(1);
             }
 
-            if (destroy_file) {
-                // WARNING:
-                //   While reclaimer is evicting memtable below (in that case
-                //   refCount == 0 already), LogMgr::flush() may grab a file,
-                //   remove it, and then release, which will get into here.
-                //   In this case this file will not be protected and causes crash.
-                //   We should do busy-waiting for eviction here.
-                //
-                // * Note that opposite CANNOT happen, because
-                //   1) This node is already detached from skiplist, and
-                //   2) once `removed` flag is set, reclaimer cannot handle this file.
-                //
-                if (evicted) {
-                    while (!file->isMemTablePurged()) std::this_thread::yield();
-                    // Wait for other job done.
-                }
-                file->destroySelf();
-                delete file;
-                delete this;
+            // NOTE:
+            //   Once `removed` flag is set and no one refers to this file,
+            //   it is not reachable by other threads, except for `grab`
+            //   by the owner of a snapshot.
+            if (removed) {
+                destroy_file = (refCount == 0 && snapCount == 0);
             }
-            return;
-        }
-
-        if (snapshot == false && evicted) {
-            uint64_t count = refCount.fetch_sub(1);
-            if (count == 1) {
-                std::lock_guard<std::mutex> l(evictionLock);
-                // WARNING:
-                //   There shouldn't be another thread that called grab() before this.
-                uint64_t count_protected = refCount.load();
-                if (count_protected == 0 && !file->isMemTablePurged()) {
-                    file->purgeMemTable();
-                }
+            if ( !destroy_file &&
+                 !snapshot &&
+                 evicted &&
+                 refCount == 0 &&
+                 !file->isMemTablePurged() ) {
+                file->purgeMemTable();
             }
-            return;
         }
 
-        // Normal case.
-        if (snapshot) {
-            snapCount.fetch_sub(1);
-        } else {
-            refCount.fetch_sub(1);
+        if (destroy_file) {
+            file->destroySelf();
+            delete file;
+            delete this;
         }
     }
 
-- 
2.43.0


From f200fc941f1a1fd706bdaa73e831a354d041c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 083/110] fix: log file lookup by sequence number should grab
 the file first

---
 src/log_manifest.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index d769a04..9551851 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -818,6 +818,11 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     LogFileInfo* info = _get_entry(cursor, LogFileInfo, snodeBySeq);
     LogFile* file = info->file;
 
+    // Should grab it first, to avoid the memtable being purged
+    // while sequence numbers are being read.
+    info->grab();
+    LogFileInfoGuard gg(info);
+
     DBMgr* mgr = DBMgr::getWithoutInit();
     if (mgr && mgr->isDebugCallbackEffective()) {
         DebugParams d_params = mgr->getDebugParams();
-- 
2.43.0


From 1ea207382c2f997d093ecd458732928b0b56b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 084/110] fix: semaphore disabled while waiting for its lock
 should not be acquired

---
 src/log_mgr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_mgr.h b/src/log_mgr.h
index 808ca0c..57a03f4 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -109,6 +109,11 @@ struct OpSemaWrapper {
     bool acquire() {
         if (lockMode) {
             opSema->lock.lock();
+            if (!opSema->enabled) {
+                // Disabled while waiting for the lock (DB is being closed).
+                opSema->lock.unlock();
+                return false;
+            }
             opSema->grabbed = true;
             acquired = true;
         } else {
-- 
2.43.0


From d85224130650819d2f1e646f324f7db6e34b88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:35 +0000
Subject: [PATCH 085/110] fix: read-only open should not create or overwrite
 log files

---
 src/log_manifest.cc | 4 ++++
 src/log_mgr.cc      | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 9551851..4ec7a31 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -468,6 +468,10 @@ Status LogManifest::load(const std::string& path,
                     }
                     break;
                 }
+                if (db_config->readOnly) {
+                    // Read-only mode should not create (or overwrite) any file.
+                    break;
+                }
                 // Otherwise, there is no valid log file. Should create one,
                 // and set its number to max file number.
                 l_file = new LogFile(logMgr);
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3a9fa36..e21f27c 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -172,7 +172,7 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
 
     removeStaleFiles();
 
-    if (mani->getNumLogFiles() == 0) {
+    if (mani->getNumLogFiles() == 0 && !opt.dbConfig->readOnly) {
         // No valid log file exists, create a new one.
         uint64_t log_num;
         TC(mani->issueLogFileNumber(log_num));
@@ -197,7 +197,7 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
        }
 
         // Sync manifest file.
-        if (!opt.dbConfig->readOnly) mani->store(true);
+        mani->store(true);
     }
 
     initialized = true;
-- 
2.43.0


From e0ab390fdaeb170c5d08f08299ffe1ec8d2326d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 086/110] fix: log store should load the log files that
 manifest may not describe yet

---
 src/log_file.cc     | 5 +++--
 src/log_file.h      | 3 ++-
 src/log_manifest.cc | 8 +++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e6bc052..ebb2937 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -182,7 +182,8 @@ Status LogFile::load(const std::string& _filename,
                      uint64_t log_file_num,
                      uint64_t min_seq,
                      uint64_t flushed_seq,
-                     uint64_t synced_seq)
+                     uint64_t synced_seq,
+                     bool lazy_load)
 {
     touch();
 
@@ -200,7 +201,7 @@ Status LogFile::load(const std::string& _filename,
     memTableOnFileMeta.flushedSeq = flushed_seq;
     memTableOnFileMeta.syncedSeq = synced_seq;
     memTableOnFileMeta.maxSeq = synced_seq;
-    if (logMgr->isLogStoreMode()) {
+    if (logMgr->isLogStoreMode() && lazy_load) {
         // If reclaim mode, load mem-table lazily.
         memtablePurged = true;
         return Status();
diff --git a/src/log_file.h b/src/log_file.h
index abd1bd1..06848d1 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -60,7 +60,8 @@ public:
                 uint64_t log_file_num,
                 uint64_t min_seq,
                 uint64_t flushed_seq,
-                uint64_t synced_seq);
+                uint64_t synced_seq,
+                bool lazy_load = true);
 
     Status loadMemTable();
 
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 4ec7a31..6fe0b1f 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -316,6 +316,7 @@ Status LogManifest::load(const std::string& path,
     uint64_t last_max_seq = NOT_INITIALIZED;
     bool prev_incomplete = false;
     uint64_t prev_flushed_seq = NOT_INITIALIZED;
+    const uint64_t last_synced_log_in_mani = lastSyncedLog;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
         LogFile* l_file = new LogFile(logMgr);
         l_file->setLogger(myLog);
@@ -412,8 +413,13 @@ Status LogManifest::load(const std::string& path,
             continue;
         }
 
+        // NOTE: Manifest may be older than the last synced log file and its
+        //       following files, hence should load them to get the actual
+        //       sequence numbers, even though it is log store mode.
+        bool lazy_load = valid_number(last_synced_log_in_mani) &&
+                         l_file_num < last_synced_log_in_mani;
         s = l_file->load(l_filename, fLogOps, l_file_num,
-                         min_seq, purged_seq, synced_seq);
+                         min_seq, purged_seq, synced_seq, lazy_load);
         if ( prev_incomplete && ( s || s == Status::INCOMPLETE_LOG ) ) {
             // The tail of the previous log file is missing due to crash.
             // If there is a gap between the previous file and this file, this file
-- 
2.43.0


From c13ff28b5f201866162192e6c8f3f447f5545b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 087/110] fix: skipManifestSync should not skip the manifest of
 a new log file

---
 src/log_mgr.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index e21f27c..3e01cd0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -92,11 +92,11 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
 
    try {
     // WARNING:
-    //   This flag should be set to `false` before doing initialization or load.
-    //   For the first time creation, the very first log file will be created,
-    //   and it should be synced to the disk. `addNewLogFile()` will set this
-    //   flag to `true`. It should not be set to `false` after that.
-    needSkippedManiSync = false;
+    //   A new log file can be created by either initialization or load, and
+    //   the manifest file does not contain correct info of it until the next
+    //   sync. The first `sync()` call should sync manifest file, regardless of
+    //   `skipManifestSync`. It should not be set to `false` before that.
+    needSkippedManiSync = true;
 
     std::string m_filename;
     if (opt.dbConfig->customManifestPath.empty()) {
@@ -1324,6 +1324,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     uint64_t last_synced_log = ln_from;
+    bool last_log_empty = true;
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1357,6 +1358,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
         if (valid_number(after_sync)) {
             last_synced_log = ii;
         }
+        last_log_empty = !valid_number(li->file->getMinSeqNum());
         // Set this file immutable, if it is not the last file.
         if (ii < ln_to) {
             li->file->setImmutable();
@@ -1370,10 +1372,22 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
     const DBConfig* db_config = getDbConfig();
     if (!db_config->skipManifestSync || needSkippedManiSync) {
-        EP( mani->store(call_fsync) );
-        _log_(log_level, myLog, "updated log manifest file.");
         // NOTE: If `fsync` is not called, manifest file may not be durable.
-        if (call_fsync) needSkippedManiSync = false;
+        //       Also, if the last log file is still empty, manifest file
+        //       does not have its min sequence number yet.
+        //       A new log file can be added in the meantime, hence should
+        //       clear the flag first and then check the last log file.
+        if (call_fsync && !last_log_empty) needSkippedManiSync = false;
+        uint64_t cur_max_log = ln_to;
+        mani->getMaxLogFileNum(cur_max_log);
+        if (cur_max_log != ln_to) needSkippedManiSync = true;
+
+        Status ms = mani->store(call_fsync);
+        if (!ms) {
+            needSkippedManiSync = true;
+            return ms;
+        }
+        _log_(log_level, myLog, "updated log manifest file.");
     }
     return Status();
 }
-- 
2.43.0


From 8c57b823f188330feccde45c75b22458c980f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 088/110] fix: last flushed and synced log numbers should refer
 to existing log files after load

---
 src/log_manifest.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 6fe0b1f..a182243 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -534,6 +534,16 @@ Status LogManifest::load(const std::string& path,
         }
     }
 
+    if (!getNumLogFiles()) {
+        // No log file is valid, last flushed and synced logs do not exist.
+        lastFlushedLog = NOT_INITIALIZED;
+        lastSyncedLog = NOT_INITIALIZED;
+    } else if ( valid_number(lastFlushedLog) &&
+                lastFlushedLog > maxLogFileNum ) {
+        // Last flushed log has been removed above.
+        lastFlushedLog.store(maxLogFileNum);
+    }
+
     _log_info(myLog, "loading manifest & log files done: %lu us, "
               "flushed %s synced %s max %s",
               tt.getUs(),
-- 
2.43.0


From fde1e08040ec249429c25570b97c4bf2de119aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 089/110] fix: log reclaimer should keep the database open
 while working on it

---
 src/log_reclaimer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_reclaimer.cc b/src/log_reclaimer.cc
index 17e1684..66e9055 100644
--- a/src/log_reclaimer.cc
+++ b/src/log_reclaimer.cc
@@ -62,6 +62,8 @@ void LogReclaimer::work() {
         while (cursor) {
             DBWrap* dbwrap = _get_entry(cursor, DBWrap, snode);
             if (dbwrap->db->p->dbConfig.logSectionOnly) {
+                // NOTE: Should prevent DB from being closed in the meantime.
+                dbwrap->db->p->incBgTask();
                 target_dbs.push_back(dbwrap->db);
             }
             cursor = skiplist_next(&dbm->dbMap, cursor);
@@ -75,6 +77,7 @@ void LogReclaimer::work() {
     for (auto& entry: target_dbs) {
         DB* db = entry;
         db->p->logMgr->doLogReclaim();
+        db->p->decBgTask();
     }
 }
 
-- 
2.43.0


From 5ad6f9af809c6585aed0c75ef336df9138ed3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 090/110] fix: log manifest should be consistent with
 concurrently added or removed log files

---
 src/log_manifest.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index a182243..2810c61 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -525,6 +525,11 @@ Status LogManifest::load(const std::string& path,
             start_seq = valid_number(last_max_seq) ? last_max_seq + 1 : 0;
         }
         addNewLogFile(l_file_num, l_file, start_seq);
+        if ( valid_number(maxLogFileNum) &&
+             maxLogFileNum < l_file_num ) {
+            // This log file was being added when manifest was written.
+            maxLogFileNum.store(l_file_num);
+        }
         if (valid_number(l_file->getMaxSeqNum())) {
             last_max_seq = l_file->getMaxSeqNum();
         }
@@ -607,6 +612,7 @@ Status LogManifest::storeInternal(bool call_fsync) {
     ss.putU64(maxLogFileNum);
     ss.putU64(lastFlushedLog);
     ss.putU64(lastSyncedLog);
+    const size_t num_log_files_pos = ss.pos();
     ss.putU32(num_log_files);
     _log_debug(myLog,
                "max log file num %ld, last flush %ld, last sync %ld, "
@@ -614,6 +620,9 @@ Status LogManifest::storeInternal(bool call_fsync) {
                maxLogFileNum.load(), lastFlushedLog.load(),
                lastSyncedLog.load(), num_log_files);
 
+    // NOTE: Log files can be added or removed in the meantime, so that
+    //       we should count what is actually written.
+    num_log_files = 0;
     skiplist_node* cursor = skiplist_begin(&logFiles);
     while (cursor) {
         //   << Log info entry format >>
@@ -639,12 +648,18 @@ Status LogManifest::storeInternal(bool call_fsync) {
                    info->logFileNum, l_file->getMinSeqNum(),
                    l_file->getFlushedSeqNum(), l_file->getSyncedSeqNum());
         info->done();
+        num_log_files++;
 
         cursor = skiplist_next(&logFiles, cursor);
         skiplist_release_node(&info->snode);
     }
     if (cursor) skiplist_release_node(cursor);
 
+    const size_t entries_end_pos = ss.pos();
+    ss.pos(num_log_files_pos);
+    ss.putU32(num_log_files);
+    ss.pos(entries_end_pos);
+
     ss.put(LOGMANI_FOOTER, 8);
 
     // Version
-- 
2.43.0


From cbc26dd6c8b44a4984e0bce246d5ea45b19c8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 091/110] fix: log file handle should be protected from
 concurrent sync and memtable load

---
 src/log_file.cc | 4 ++++
 src/log_file.h  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index ebb2937..ee67583 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -211,6 +211,7 @@ Status LogFile::load(const std::string& _filename,
 
 Status LogFile::loadMemTable() {
     touch();
+    std::lock_guard<std::recursive_mutex> l(fHandleLock);
 
     if (mTable) return Status::ALREADY_INITIALIZED;
 
@@ -264,6 +265,7 @@ Status LogFile::loadMemTable() {
 }
 
 Status LogFile::truncate(uint64_t seq_upto) {
+    std::lock_guard<std::recursive_mutex> l(fHandleLock);
     Status s;
     // Open log file
     if (!fHandle) {
@@ -408,6 +410,7 @@ Status LogFile::getPrefix(const uint64_t chk,
 
 Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
    touch();
+   std::lock_guard<std::recursive_mutex> l(fHandleLock);
    // Skip unnecessary flushing
    if (immutable && !fHandle && isSynced()) {
        _log_debug(myLog,
@@ -578,6 +581,7 @@ uint64_t LogFile::getMemTableSize() const {
 
 Status LogFile::sync() {
     touch();
+    std::lock_guard<std::recursive_mutex> l(fHandleLock);
 
     Status s;
     if (!fHandle) {
diff --git a/src/log_file.h b/src/log_file.h
index 06848d1..835d5c0 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -24,6 +24,7 @@ limitations under the License.
 
 #include <atomic>
 #include <list>
+#include <mutex>
 #include <string>
 
 class SimpleLogger;
@@ -229,6 +230,10 @@ private:
     // Handle for this log file.
     FileHandle* fHandle;
 
+    // Lock for `fHandle`: sync and (re-)loading memtable can happen
+    // at the same time.
+    std::recursive_mutex fHandleLock;
+
     // In-memory index for this log file.
     MemTable* mTable;
 
-- 
2.43.0


From 7b8bb86d9ce2eba81035917ff22a1769d97ff740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 092/110] fix: empty log file in the middle should not discard
 the following log files

---
 src/log_manifest.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2810c61..96cfb9e 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -334,8 +334,11 @@ Status LogManifest::load(const std::string& path,
              db_config->truncateInconsecutiveLogs &&
              valid_number(min_seq) ) {
             // Log-only mode, validity check.
+            // NOTE: An empty log file in the middle can be stored with
+            //       `min_seq = synced_seq + 1`, files after it are valid.
+            const bool is_last_file = (ii + 1 == num_log_files);
             if ( valid_number(synced_seq) &&
-                 min_seq > synced_seq ) {
+                 min_seq > synced_seq + ((is_last_file) ? 0 : 1) ) {
                 // This cannot happen, probably caused by
                 // abnormal shutdown.
                 _log_warn( myLog, "min seq %s > synced seq %s, break",
-- 
2.43.0


From f971d184fb988d9663a7f3c37c8f3cad3389e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 093/110] fix: log file should be registered by number before
 it is searchable by sequence number

---
 src/log_manifest.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 96cfb9e..85db516 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -925,8 +925,10 @@ Status LogManifest::addNewLogFile(uint64_t log_num,
     if (log_file->isMemTablePurged()) info->evicted = true;
     info->file = log_file;
     info->startSeq = start_seqnum;
-    skiplist_insert(&logFilesBySeq, &info->snodeBySeq);
+    // NOTE: A file found by sequence number should be able to be found by
+    //       its file number as well.
     skiplist_insert(&logFiles, &info->snode);
+    skiplist_insert(&logFilesBySeq, &info->snodeBySeq);
 
     return Status();
 }
-- 
2.43.0


From b1137af0bd00ed35b9171d7dde55eaeb1c1e3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:48 +0000
Subject: [PATCH 094/110] fix: snapshot iterator should grab log file before
 reading its sequence numbers

---
 src/log_iterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index cdcd62c..51aa575 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -132,6 +132,10 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
         for (auto& entry: *snap_handle->sn->logList) {
             LogFileInfo* l_info = entry;
             if (lMgr->getDbConfig()->logSectionOnly) {
+                // NOTE: Should grab it first, to avoid the memtable being
+                //       purged or loaded while reading sequence numbers.
+                l_info->grab();
+                LogFileInfoGuard g_li(l_info);
                 if ( l_info->file->getMinSeqNum() > maxSeqSnap ||
                      l_info->file->getMaxSeqNum() < minSeqSnap ) {
                     continue;
-- 
2.43.0


From 218e625db5fdd86a2f6e87934eae2c87ded63fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:49:01 +0000
Subject: [PATCH 095/110] fix: log file should tolerate memtable that failed to
 be loaded

---
 src/log_file.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index ee67583..629ea4b 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -332,11 +332,14 @@ Status LogFile::truncate(uint64_t seq_upto) {
 
 Status LogFile::assignSeqNum(Record& rec_local) {
     touch();
+    // NOTE: Memtable does not exist if loading it from the file failed.
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     return mTable->assignSeqNum(rec_local);
 }
 
 Status LogFile::setSN(const Record& rec) {
     touch();
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
 
     // Put into memtable
     Status s;
@@ -364,6 +367,7 @@ Status LogFile::setSN(const Record& rec) {
 
 Status LogFile::getSN(const uint64_t seq_num, Record& rec_out) {
     touch();
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     return mTable->findRecordBySeq(seq_num, rec_out);
 }
 
@@ -374,6 +378,7 @@ Status LogFile::get(const uint64_t chk,
                     bool allow_tombstone)
 {
     touch();
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
     EP( mTable->getRecordByKey(chk, key, rec_out,
                                allow_flushed_log, allow_tombstone) );
@@ -388,6 +393,7 @@ Status LogFile::getNearest(const uint64_t chk,
                            SearchOptions s_opt)
 {
     touch();
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
     EP( mTable->getNearestRecordByKey(chk, key, rec_out,
                                       allow_flushed_log, allow_tombstone,
@@ -402,6 +408,7 @@ Status LogFile::getPrefix(const uint64_t chk,
                           bool allow_tombstone)
 {
     touch();
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
     EP( mTable->getRecordsByPrefix(chk, prefix, cb_func,
                                    allow_flushed_log, allow_tombstone) );
@@ -418,6 +425,8 @@ Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
                   filename.c_str(), logFileNum);
        return Status();
    }
+   // Failed to load memtable, there is nothing to write.
+   if (!mTable) return Status();
 
   try {
     Status s;
@@ -547,6 +556,8 @@ Status LogFile::purgeMemTable() {
     // Can purge memtable only when the file is immutable.
     if (!immutable) return Status::FILE_IS_NOT_IMMUTABLE;
 
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
+
     memTableOnFileMeta.minSeq = mTable->minSeqNum;
     memTableOnFileMeta.maxSeq = mTable->maxSeqNum;
     memTableOnFileMeta.flushedSeq = mTable->flushedSeqNum;
@@ -608,6 +619,7 @@ Status LogFile::checkpoint(uint64_t& seq_num_out) {
     if (immutable) coldChk = true;
 
     Status s;
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     s = mTable->checkpoint(seq_num_out);
     return s;
 }
@@ -619,6 +631,7 @@ Status LogFile::getLogsToFlush(const uint64_t seq_num,
     touch();
 
     Status s;
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     s = mTable->getLogsToFlush(seq_num, list_out, ignore_sync_seqnum);
     return s;
 }
@@ -629,6 +642,7 @@ Status LogFile::getCheckpoints(const uint64_t seq_num,
     touch();
 
     Status s;
+    if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     s = mTable->getCheckpoints(seq_num, list_out);
     return s;
 }
@@ -790,6 +804,7 @@ bool LogFile::isValidToWrite() {
     if ( immutable ||
          fileSize > max_log_file_size ||
          getMemTableSize() > max_log_file_size ||
+         !mTable ||
          mTable->getNumLogs() >= max_log_entries )
         return false;
     return true;
@@ -812,6 +827,7 @@ Status LogFile::Iterator::init(LogFile* l_file,
 {
     lFile = l_file;
     lFile->touch();
+    if (!lFile->mTable) return Status::LOG_FILE_NOT_FOUND;
     return mItr.init(lFile->mTable, start_key, end_key, seq_from, seq_upto);
 }
 
@@ -822,6 +838,7 @@ Status LogFile::Iterator::initSN(LogFile* l_file,
 {
     lFile = l_file;
     lFile->touch();
+    if (!lFile->mTable) return Status::LOG_FILE_NOT_FOUND;
     return mItr.initSN(lFile->mTable, min_seq, max_seq, is_log_store_snapshot);
 }
 
-- 
2.43.0


From 8a93ffb1dfe387fcfc82d9ed0c2af6bbd8457e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:12 +0000
Subject: [PATCH 096/110] fix: evicted log file should be reloaded on access in
 any mode

---
 src/log_manifest.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 85db516..39980da 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -789,7 +789,7 @@ Status LogManifest::getLogFileInfo(const uint64_t log_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(true);
     }
     skiplist_release_node(cursor);
     return Status();
@@ -827,7 +827,7 @@ Status LogManifest::getLogFileInfoRange(const uint64_t s_log_inc,
         if (force_not_load_memtable) {
             l_info->grab();
         } else {
-            l_info->grab(isLogReclaimerActive());
+            l_info->grab(true);
         }
         info_out.push_back(l_info);
 
@@ -901,7 +901,7 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(true);
     }
     skiplist_release_node(cursor);
     return Status();
-- 
2.43.0


From a4b1e71d9670fe8fa6b21ea6fb81130312a1f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:12 +0000
Subject: [PATCH 097/110] fix: finding the offset of a seqnum should tolerate a
 broken tail behind it

---
 src/memtable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 5e3b746..1f3bbf6 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1286,6 +1286,9 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
                    s.toString().c_str(),
                    m.c_str() );
     } else {
+        // NOTE: The tail of the file can be broken due to crash. Offset is
+        //       still valid if the record is in front of it.
+        if (last_seq >= target_seq) offset_out = last_offset;
         _log_err( logger,
                   "failed to find offset for seqnum %ld, last_offset %ld, "
                   "loaded last_seq %s, file_size %zu, last read pos %zu, "
-- 
2.43.0


From 0705d62c342fb93cad045d13adbb607badb67c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:36 +0000
Subject: [PATCH 098/110] fix: max log file number should refer to an existing
 file during rollback

---
 src/log_mgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3e01cd0..ec8b531 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -311,6 +311,8 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     // Remove all log files after that.
     uint64_t lf_max = 0;
     mani->getMaxLogFileNum(lf_max);
+    // NOTE: The max number should always refer to an existing log file.
+    mani->rollbackLogFileNumber(linfo->logFileNum);
     // NOTE: Same as in flush, log files should not be removed
     //       before storing the manifest file.
     std::list<LogFileInfoGuard> removed_files;
@@ -327,7 +329,6 @@ Status LogMgr::rollback(uint64_t seq_upto) {
             Timer::sleepUs(d_params.rollbackDelayUs);
         }
     }
-    mani->rollbackLogFileNumber(linfo->logFileNum);
 
     // Adjust manifest, and store.
     mani->setLastSyncedLog(linfo->logFileNum);
-- 
2.43.0


From 7ba53f4d1709ba476245c8fa57a2b0370d70ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:36 +0000
Subject: [PATCH 099/110] fix: log files removed by rollback should not outlive
 it as their numbers are re-used

---
 src/log_file.cc | 22 +++++++++++++++++++++-
 src/log_file.h  |  6 ++++++
 src/log_mgr.cc  |  6 ++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 629ea4b..c17c2b8 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -35,6 +35,7 @@ LogFile::LogFile(LogMgr* log_mgr)
     , coldChk(false)
     , integrity(IntegrityTypes::UNKNOWN)
     , memtablePurged(false)
+    , fileRemoved(false)
     , logMgr(log_mgr)
     , fileSize(0)
     , myLog(nullptr)
@@ -88,6 +89,7 @@ std::string LogFile::getLogFileName(const std::string& path,
 
 Status LogFile::openFHandle() {
     Status s;
+    if (fileRemoved) return Status::LOG_FILE_NOT_FOUND;
     EP( fOps->open(&fHandle, filename.c_str()) );
     _log_debug(myLog, "open file %s handle %p",
                filename.c_str(), fHandle);
@@ -701,6 +703,24 @@ Status LogFile::updateSeqNumByBulkLoader(const uint64_t seq_num) {
     return Status();
 }
 
+Status LogFile::removeFile() {
+    std::lock_guard<std::recursive_mutex> l(fHandleLock);
+    Status s;
+    if (!fileRemoved && fOps->exist(filename.c_str())) {
+        // NOTE: A new file will have the same name. The old contents should
+        //       not come back, even though removing file is lost by crash.
+        if (!fHandle) {
+            EP( openFHandle() );
+        }
+        EP( fOps->ftruncate(fHandle, 0) );
+        EP( fOps->fsync(fHandle) );
+        EP( closeFHandle() );
+        s = fOps->remove(filename.c_str());
+    }
+    fileRemoved = true;
+    return s;
+}
+
 Status LogFile::destroySelf() {
     if (fHandle) {
         if (fHandle->isOpened()) {
@@ -710,7 +730,7 @@ Status LogFile::destroySelf() {
         fHandle = nullptr;
     }
 
-    if (fOps->exist(filename.c_str())) {
+    if (!fileRemoved && fOps->exist(filename.c_str())) {
         // Instead removing it immediately,
         // put it into remove list.
         DBMgr* dbm = DBMgr::getWithoutInit();
diff --git a/src/log_file.h b/src/log_file.h
index 835d5c0..cece8ae 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -120,6 +120,9 @@ public:
     Status setSyncedSeqNum(const uint64_t seq_num);
     Status setFlushedSeqNum(const uint64_t seq_num);
     Status updateSeqNumByBulkLoader(const uint64_t seq_num);
+    // Remove the file right now, without waiting for `destroySelf`.
+    Status removeFile();
+
     Status destroySelf();
 
     uint64_t getMinSeqNum() const;
@@ -252,6 +255,9 @@ private:
     // Memtable metadata if it is purged.
     PurgedMemTableMeta memTableOnFileMeta;
 
+    // File has been removed by rollback. New file can have the same name.
+    std::atomic<bool> fileRemoved;
+
     // Parent log manager.
     LogMgr* logMgr;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ec8b531..988c4f3 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -334,6 +334,12 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     mani->setLastSyncedLog(linfo->logFileNum);
     lastFsyncedLog = NOT_INITIALIZED;
     mani->store(true);
+    // NOTE: The number of the removed file will be re-used, so that it
+    //       should be removed now, even though other thread (e.g., reader)
+    //       is still referring to it.
+    for (LogFileInfoGuard& li: removed_files) {
+        if (!li.empty()) li.file()->removeFile();
+    }
     removed_files.clear();
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
-- 
2.43.0


From 34ce4d11a713e4fed7068c3e38540150ea7af1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:36 +0000
Subject: [PATCH 100/110] fix: rollback should sync log files before storing
 the manifest durably

---
 src/log_mgr.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 988c4f3..d4b7066 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -287,8 +287,9 @@ Status LogMgr::rollback(uint64_t seq_upto) {
                     {this->parentDb->p->flags.rollbackInProgress = false;} );
     this->parentDb->p->flags.rollbackInProgress = true;
 
-    // Should sync first.
-    EP( syncInternal(false) );
+    // Should sync first. The manifest file will be synced below, so that
+    // the log files that it refers to should be synced as well.
+    EP( syncInternal(true) );
 
     // Find corresponding log file.
     LogFileInfo* linfo;
-- 
2.43.0


From 4b75f5d3f855f57590647644cb278bdad83db847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:36 +0000
Subject: [PATCH 101/110] fix: rollback should truncate the log file after
 storing the manifest

---
 src/log_file.cc | 36 ++++++++++++++++++++++--------------
 src/log_file.h  |  6 +++++-
 src/log_mgr.cc  | 16 ++++++++++++----
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index c17c2b8..7546683 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -266,7 +266,7 @@ Status LogFile::loadMemTable() {
     return s_load;
 }
 
-Status LogFile::truncate(uint64_t seq_upto) {
+Status LogFile::prepareTruncate(uint64_t seq_upto, uint64_t& offset_out) {
     std::lock_guard<std::recursive_mutex> l(fHandleLock);
     Status s;
     // Open log file
@@ -301,14 +301,6 @@ Status LogFile::truncate(uint64_t seq_upto) {
         uint64_t offset_to_truncate = 0;
         MemTable::findOffsetOfSeq(myLog, ss, seq_upto, offset_to_truncate);
 
-        if (mTable) {
-            mTable->maxSeqNum = seq_upto;
-            mTable->syncedSeqNum = seq_upto;
-            mTable->seqNumAlloc = seq_upto;
-        }
-        memTableOnFileMeta.maxSeq = seq_upto;
-        memTableOnFileMeta.syncedSeq = seq_upto;
-
         if (!offset_to_truncate) {
             if (okToCloseFHandle()) {
                 EP( closeFHandle() );
@@ -316,12 +308,14 @@ Status LogFile::truncate(uint64_t seq_upto) {
             return Status::SEQNUM_NOT_FOUND;
         }
 
-        // Truncate.
-        fOps->ftruncate(fHandle, offset_to_truncate);
-
-        if (okToCloseFHandle()) {
-            EP( closeFHandle() );
+        if (mTable) {
+            mTable->maxSeqNum = seq_upto;
+            mTable->syncedSeqNum = seq_upto;
+            mTable->seqNumAlloc = seq_upto;
         }
+        memTableOnFileMeta.maxSeq = seq_upto;
+        memTableOnFileMeta.syncedSeq = seq_upto;
+        offset_out = offset_to_truncate;
 
         return Status();
     } catch (Status s) {
@@ -332,6 +326,20 @@ Status LogFile::truncate(uint64_t seq_upto) {
     }
 }
 
+Status LogFile::truncate(uint64_t offset) {
+    std::lock_guard<std::recursive_mutex> l(fHandleLock);
+    Status s;
+    if (!fHandle) {
+        EP( openFHandle() );
+    }
+    s = fOps->ftruncate(fHandle, offset);
+    if (s) s = fOps->fsync(fHandle);
+    if (okToCloseFHandle()) {
+        EP( closeFHandle() );
+    }
+    return s;
+}
+
 Status LogFile::assignSeqNum(Record& rec_local) {
     touch();
     // NOTE: Memtable does not exist if loading it from the file failed.
diff --git a/src/log_file.h b/src/log_file.h
index cece8ae..4aeb56a 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -66,7 +66,11 @@ public:
 
     Status loadMemTable();
 
-    Status truncate(uint64_t seq_upto);
+    // Find the offset to truncate the file at, and make
+    // `seq_upto` the last sequence number of the file.
+    Status prepareTruncate(uint64_t seq_upto, uint64_t& offset_out);
+
+    Status truncate(uint64_t offset);
 
     Status assignSeqNum(Record& rec_local);
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index d4b7066..3c39917 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -298,8 +298,9 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     LogFileInfoGuard gg(linfo);
     if (gg.empty() || gg.ptr->isRemoved()) return Status::SEQNUM_NOT_FOUND;
 
-    // Truncate that file.
-    EP( gg.file()->truncate(seq_upto) );
+    // Find the position to truncate that file.
+    uint64_t truncate_offset = 0;
+    EP( gg.file()->prepareTruncate(seq_upto, truncate_offset) );
 
     if (d_params.rollbackDelayUs) {
         // If debug parameter is given, sleep here.
@@ -307,7 +308,6 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     }
 
     gg.file()->setImmutable();
-    _log_info(myLog, "[ROLLBACK] truncated log file %zu", linfo->logFileNum);
 
     // Remove all log files after that.
     uint64_t lf_max = 0;
@@ -334,7 +334,15 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     // Adjust manifest, and store.
     mani->setLastSyncedLog(linfo->logFileNum);
     lastFsyncedLog = NOT_INITIALIZED;
-    mani->store(true);
+    EP( mani->store(true) );
+
+    // WARNING: Should truncate the file after storing the manifest file.
+    //          If not and crash happens in the middle, manifest file points
+    //          to the following log files, while the records in front of
+    //          them are missing.
+    EP( gg.file()->truncate(truncate_offset) );
+    _log_info(myLog, "[ROLLBACK] truncated log file %zu", linfo->logFileNum);
+
     // NOTE: The number of the removed file will be re-used, so that it
     //       should be removed now, even though other thread (e.g., reader)
     //       is still referring to it.
-- 
2.43.0


From a04c143ef1308002b896d96036dd6e58884ed3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:36 +0000
Subject: [PATCH 102/110] fix: rolled-back records should not be visible while
 the memtable is still referred to

---
 src/log_file.cc | 15 ++++++++++-----
 src/log_file.h  |  9 +++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 7546683..2b02f73 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -36,6 +36,7 @@ LogFile::LogFile(LogMgr* log_mgr)
     , integrity(IntegrityTypes::UNKNOWN)
     , memtablePurged(false)
     , fileRemoved(false)
+    , rollbackSeq(NOT_INITIALIZED)
     , logMgr(log_mgr)
     , fileSize(0)
     , myLog(nullptr)
@@ -315,6 +316,7 @@ Status LogFile::prepareTruncate(uint64_t seq_upto, uint64_t& offset_out) {
         }
         memTableOnFileMeta.maxSeq = seq_upto;
         memTableOnFileMeta.syncedSeq = seq_upto;
+        rollbackSeq = seq_upto;
         offset_out = offset_to_truncate;
 
         return Status();
@@ -378,6 +380,7 @@ Status LogFile::setSN(const Record& rec) {
 Status LogFile::getSN(const uint64_t seq_num, Record& rec_out) {
     touch();
     if (!mTable) return Status::LOG_FILE_NOT_FOUND;
+    if (visibleSeq(seq_num) != seq_num) return Status::SEQNUM_NOT_FOUND;
     return mTable->findRecordBySeq(seq_num, rec_out);
 }
 
@@ -390,7 +393,7 @@ Status LogFile::get(const uint64_t chk,
     touch();
     if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
-    EP( mTable->getRecordByKey(chk, key, rec_out,
+    EP( mTable->getRecordByKey(visibleSeq(chk), key, rec_out,
                                allow_flushed_log, allow_tombstone) );
     return Status();
 }
@@ -405,7 +408,7 @@ Status LogFile::getNearest(const uint64_t chk,
     touch();
     if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
-    EP( mTable->getNearestRecordByKey(chk, key, rec_out,
+    EP( mTable->getNearestRecordByKey(visibleSeq(chk), key, rec_out,
                                       allow_flushed_log, allow_tombstone,
                                       s_opt) );
     return Status();
@@ -420,7 +423,7 @@ Status LogFile::getPrefix(const uint64_t chk,
     touch();
     if (!mTable) return Status::LOG_FILE_NOT_FOUND;
     Status s;
-    EP( mTable->getRecordsByPrefix(chk, prefix, cb_func,
+    EP( mTable->getRecordsByPrefix(visibleSeq(chk), prefix, cb_func,
                                    allow_flushed_log, allow_tombstone) );
     return Status();
 }
@@ -856,7 +859,8 @@ Status LogFile::Iterator::init(LogFile* l_file,
     lFile = l_file;
     lFile->touch();
     if (!lFile->mTable) return Status::LOG_FILE_NOT_FOUND;
-    return mItr.init(lFile->mTable, start_key, end_key, seq_from, seq_upto);
+    return mItr.init(lFile->mTable, start_key, end_key, seq_from,
+                     lFile->visibleSeq(seq_upto));
 }
 
 Status LogFile::Iterator::initSN(LogFile* l_file,
@@ -867,7 +871,8 @@ Status LogFile::Iterator::initSN(LogFile* l_file,
     lFile = l_file;
     lFile->touch();
     if (!lFile->mTable) return Status::LOG_FILE_NOT_FOUND;
-    return mItr.initSN(lFile->mTable, min_seq, max_seq, is_log_store_snapshot);
+    return mItr.initSN(lFile->mTable, min_seq, lFile->visibleSeq(max_seq),
+                       is_log_store_snapshot);
 }
 
 
diff --git a/src/log_file.h b/src/log_file.h
index 4aeb56a..3dabcf3 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -223,6 +223,11 @@ private:
 
     bool okToCloseFHandle();
 
+    // `seq_num` limited by what rollback left.
+    uint64_t visibleSeq(uint64_t seq_num) const {
+        return std::min( seq_num, rollbackSeq.load() );
+    }
+
 // === VARIABLES
 
     // Log file number.
@@ -262,6 +267,10 @@ private:
     // File has been removed by rollback. New file can have the same name.
     std::atomic<bool> fileRemoved;
 
+    // Records beyond this number have been rolled back. Memtable can still
+    // have them until no one refers to this file, but they are not visible.
+    std::atomic<uint64_t> rollbackSeq;
+
     // Parent log manager.
     LogMgr* logMgr;
 
-- 
2.43.0


From 6e3a2b5630cb9099bb68fd1642b5eac5fb76ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:17:12 +0000
Subject: [PATCH 103/110] fix: memtable should be visible after it is fully
 loaded

---
 src/log_file.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 2b02f73..be55d84 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -245,12 +245,15 @@ Status LogFile::loadMemTable() {
     (void)ver_file;
 
     // Load to MemTable.
-    mTable = new MemTable(this);
-    mTable->setLogger(myLog);
-    Status s_load = mTable->load( ss,
-                                  memTableOnFileMeta.minSeq,
-                                  memTableOnFileMeta.flushedSeq,
-                                  memTableOnFileMeta.syncedSeq );
+    // NOTE: Other threads may read sequence numbers in the meantime,
+    //       `mTable` should be visible to them after it is fully loaded.
+    MemTable* new_table = new MemTable(this);
+    new_table->setLogger(myLog);
+    Status s_load = new_table->load( ss,
+                                     memTableOnFileMeta.minSeq,
+                                     memTableOnFileMeta.flushedSeq,
+                                     memTableOnFileMeta.syncedSeq );
+    mTable = new_table;
     // NOTE: The tail of the file can be missing due to crash.
     if (!s_load && s_load != Status::INCOMPLETE_LOG) return s_load;
 
-- 
2.43.0


From 3e83307d5c874fd19ad3056c056e9a5eaba7607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:24:06 +0000
Subject: [PATCH 104/110] fix: corrupted DB manifest should be restored from
 its backup

---
 src/db_manifest.cc | 14 ++++++++++++++
 src/db_manifest.h  |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index e0e5fb9..dac1b02 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -80,6 +80,20 @@ Status DBManifest::load(const std::string& path,
     _log_debug(myLog, "Load DB manifest %s", mFileName.c_str());
     EP( fOps->open(&mFile, mFileName.c_str()) );
 
+    s = loadInternal();
+    if (!s && fOps->exist(mFileName + ".bak")) {
+        // Error happened, try to restore from the backup file.
+        _log_err(myLog, "loading DB manifest error: %d, try again using backup", (int)s);
+        EP( BackupRestore::restore(fOps, mFileName) );
+        s = loadInternal();
+    }
+    return s;
+}
+
+Status DBManifest::loadInternal()
+{
+    Status s;
+
     // File should be bigger than 12 bytes (footer + version + CRC32).
     size_t file_size = fOps->eof(mFile);
     if (file_size < 16) return Status::FILE_CORRUPTION;
diff --git a/src/db_manifest.h b/src/db_manifest.h
index 62a815f..cc764ef 100644
--- a/src/db_manifest.h
+++ b/src/db_manifest.h
@@ -48,6 +48,8 @@ public:
     void setLogger(SimpleLogger* logger) { myLog = logger; }
 
 private:
+    Status loadInternal();
+
     FileOps* fOps;
     FileHandle* mFile;
     std::string dirPath;
-- 
2.43.0


From 94bac1a9a8ff58e61dd3f2bb8041e6e1cb15f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:24:06 +0000
Subject: [PATCH 105/110] fix: global batch should not drop the batch of a DB
 in the same group

---
 src/global_batch.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index b50c226..54ad12d 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -23,7 +23,11 @@ namespace jungle {
 bool GlobalBatch::BatchPairLess::operator()
      (const BatchPair& ll, const BatchPair& rr) const
 {
-    return (ll.db->getPath() < rr.db->getPath());
+    std::string l_path = ll.db->getPath();
+    std::string r_path = rr.db->getPath();
+    if (l_path != r_path) return l_path < r_path;
+    // NOTE: DBs in the same group share the path.
+    return std::less<DB*>()(ll.db, rr.db);
 }
 
 GlobalBatch::GlobalBatch() {}
-- 
2.43.0


From 8ed14a0c6fa10e63078fe3d24073c65fb56e1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 106/110] fix: stale file removal should not leave backup
 manifest referring to removed files

---
 src/log_mgr.cc   | 17 +++++++++--------
 src/table_mgr.cc |  8 ++++++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3c39917..ac02c53 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -376,7 +376,7 @@ Status LogMgr::removeStaleFiles() {
 
     std::string m_filename = getManifestFilename();
 
-    bool need_mani_sync = false;
+    bool mani_synced = false;
     for (auto& entry: files) {
         std::string& ff = entry;
         size_t pos = ff.find(prefix);
@@ -386,21 +386,22 @@ Status LogMgr::removeStaleFiles() {
             uint64_t log_num = atoi( ff.substr( prefix_len,
                                                 ff.size() - prefix_len ).c_str() );
             if (!mani->logFileExist(log_num)) {
+                if (!mani_synced) {
+                    // Should sync manifest file before the removal, as the
+                    // backup manifest file may still refer to the file.
+                    Status s;
+                    EP( mani->store(true) );
+                    mani_synced = true;
+                    _log_info(myLog, "done manifest sync for stale file removal");
+                }
                 Timer tt;
                 opt.fOps->remove(opt.path + "/" + ff);
-                need_mani_sync = true;
                 _log_warn(myLog, "%s does not exist in manifest, removed. %zu us",
                           ff.c_str(), tt.getUs());
             }
         }
     }
 
-    if (need_mani_sync) {
-        // Should sync manifest file.
-        mani->store(true);
-        _log_info(myLog, "done manifest sync for stale file removal");
-    }
-
     return Status();
 }
 
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index c26ea42..36d6a9d 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -461,6 +461,7 @@ Status TableMgr::removeStaleFiles() {
     std::set<uint64_t> table_numbers;
     mani->getTableNumbers(table_numbers);
 
+    bool mani_synced = false;
     for (auto& entry: files) {
         std::string& ff = entry;
         size_t pos = ff.find(prefix);
@@ -470,6 +471,13 @@ Status TableMgr::removeStaleFiles() {
             uint64_t t_num = atoi( ff.substr( prefix_len,
                                               ff.size() - prefix_len ).c_str() );
             if (table_numbers.find(t_num) == table_numbers.end()) {
+                if (!mani_synced) {
+                    // Should sync manifest file before the removal, as the
+                    // backup manifest file may still refer to the file.
+                    Status s;
+                    EP( mani->store(true) );
+                    mani_synced = true;
+                }
                 Timer tt;
                 opt.fOps->remove(opt.path + "/" + ff);
                 _log_warn(myLog, "%s does not exist in manifest, removed. %zu us",
-- 
2.43.0


From 352f1daba57b8c84453c75af5651742a0b21a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 107/110] fix: nearest search should not use log records after
 releasing their memtable

---
 src/log_mgr.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ac02c53..b04edd1 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1023,7 +1023,10 @@ Status LogMgr::getNearest(const uint64_t chk,
 
     if (parentDb) parentDb->p->updateOpHistory();
 
+    // NOTE: It is used after the reference to the memtable is released,
+    //       so that should own the data.
     Record cur_nearest;
+    Record::Holder h_cur_nearest(cur_nearest);
     CustomCmpFunc custom_cmp = getDbConfig()->cmpFunc;
     auto cmp_func = [&](const SizedBuf& a, const SizedBuf& b) -> int {
         if (custom_cmp) {
@@ -1046,7 +1049,8 @@ Status LogMgr::getNearest(const uint64_t chk,
             }
         }
         if (update_cur_nearest) {
-            cur_nearest = rec_out;
+            cur_nearest.free();
+            rec_out.copyTo(cur_nearest);
         }
     };
 
@@ -1143,7 +1147,7 @@ Status LogMgr::getNearest(const uint64_t chk,
         if (cmp_func(key, cur_nearest.kv.key) < 0) return Status::KEY_NOT_FOUND;
     }
 
-    cur_nearest.copyTo(rec_out);
+    cur_nearest.moveTo(rec_out);
     return Status();
 }
 
-- 
2.43.0


From b40d096be8f247ff743f21ddc48e9fd33cb51211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 108/110] fix: visible sequence number should not be read
 before the batch boundary it is paired with

---
 src/log_mgr.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b04edd1..2dd511e 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -821,8 +821,9 @@ uint64_t LogMgr::getVisibleMaxSeqNum(LogFile* file) {
     uint64_t max_seq = file->getMaxSeqNum();
     if (epoch != batchEpoch.load()) {
         // A batch began or ended in the meantime, `max_seq` may be in
-        // the middle of it.
+        // the middle of it. It should be read again after the barrier.
         barrier = lastBatchBoundary.load();
+        max_seq = file->getMaxSeqNum();
     }
     // If the file is empty, nothing is visible.
     if (!valid_number(max_seq)) return 0;
@@ -1995,8 +1996,10 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     if (!s) return s;
     if (epoch != batchEpoch.load()) {
         // A batch began or ended in the meantime, `max_seq` may be in
-        // the middle of it.
+        // the middle of it. It should be read again after the barrier.
         barrier = lastBatchBoundary.load();
+        s = getMaxSeqNumInternal(max_seq);
+        if (!s) return s;
     }
     max_seq = std::min(max_seq, barrier);
     if (!max_seq) {
-- 
2.43.0


From bb196ba08b5a469e948ef7d7e432540023aabe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 109/110] fix: log manifest should not tell that newer log file
 is flushed while older one is not

---
 src/log_manifest.cc | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 39980da..4132725 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -27,6 +27,7 @@ limitations under the License.
 
 #include <algorithm>
 #include <sstream>
+#include <vector>
 
 namespace jungle {
 
@@ -625,38 +626,52 @@ Status LogManifest::storeInternal(bool call_fsync) {
 
     // NOTE: Log files can be added or removed in the meantime, so that
     //       we should count what is actually written.
-    num_log_files = 0;
+    std::vector<LogFileInfo*> infos;
     skiplist_node* cursor = skiplist_begin(&logFiles);
     while (cursor) {
-        //   << Log info entry format >>
-        // Log file number,         8 bytes
-        // Min seq number,          8 bytes
-        // Last flushed seq number, 8 bytes
-        // Last synced seq number,  8 bytes
         LogFileInfo* info = _get_entry(cursor, LogFileInfo, snode);
-        LogFile* l_file = info->file;
 
         // WARNING: We should grab `info` due to below
         //          seq number retrievals. Otherwise, there can
         //          be a possibility of heap-use-after-free if
         //          this file is being evicted by the reclaimer.
         info->grab(false);
+        infos.push_back(info);
+
+        cursor = skiplist_next(&logFiles, cursor);
+        skiplist_release_node(&info->snode);
+    }
+    if (cursor) skiplist_release_node(cursor);
+    num_log_files = infos.size();
+
+    // WARNING: Flush marks log files from older one to newer one. We should
+    //          read the marks in the opposite order, otherwise the manifest
+    //          may tell that older log file is not flushed yet while newer
+    //          log file is, and the older records will hide the newer ones
+    //          in tables after crash.
+    std::vector<uint64_t> flushed_seqs(infos.size());
+    for (size_t ii = infos.size(); ii > 0; --ii) {
+        flushed_seqs[ii - 1] = infos[ii - 1]->file->getFlushedSeqNum();
+    }
 
+    for (size_t ii = 0; ii < infos.size(); ++ii) {
+        //   << Log info entry format >>
+        // Log file number,         8 bytes
+        // Min seq number,          8 bytes
+        // Last flushed seq number, 8 bytes
+        // Last synced seq number,  8 bytes
+        LogFileInfo* info = infos[ii];
+        LogFile* l_file = info->file;
         ss.putU64(info->logFileNum);
         ss.putU64(l_file->getMinSeqNum());
-        ss.putU64(l_file->getFlushedSeqNum());
+        ss.putU64(flushed_seqs[ii]);
         ss.putU64(l_file->getSyncedSeqNum());
         _log_trace(myLog,
                    "log %ld, min seq %ld, last flush %ld, last sync %ld",
                    info->logFileNum, l_file->getMinSeqNum(),
-                   l_file->getFlushedSeqNum(), l_file->getSyncedSeqNum());
+                   flushed_seqs[ii], l_file->getSyncedSeqNum());
         info->done();
-        num_log_files++;
-
-        cursor = skiplist_next(&logFiles, cursor);
-        skiplist_release_node(&info->snode);
     }
-    if (cursor) skiplist_release_node(cursor);
 
     const size_t entries_end_pos = ss.pos();
     ss.pos(num_log_files_pos);
-- 
2.43.0


From 2c6600cc302c33410bb82f4f44af9264132ab3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 110/110] fix: automatic flush should not go beyond existing
 logs when last synced log is behind last flushed one

---
 src/log_mgr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 2dd511e..d100584 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1505,8 +1505,11 @@ Status LogMgr::flush(const FlushOptions& options,
         EP( mani->getMinLogFileNum(ln_from) );
     }
 
+    // NOTE: `ln_to` can be smaller than `ln_from`, if log files were flushed
+    //       without sync while other thread was syncing them.
     ln_to_original = ln_to;
     if ( options.numFilesLimit &&
+         ln_to >= ln_from &&
          ln_to - ln_from + 1 > options.numFilesLimit ) {
         ln_to = ln_from + options.numFilesLimit - 1;
     }
-- 
2.43.0

