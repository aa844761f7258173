From 477d40ade535d6547950dbda9374046bb08ebce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 01/38] fix: GCPool::GC must sweep the last allocated slot of
 the current block

The slot at current_pos_ - 1 was neither unmarked nor collected. A node left
marked there by one collection was not traversed in the next one, so nodes
reachable only through it were freed while still in use.
---
 src/pool.h | 508 ++++++++++++++++++++++++++---------------------------
 1 file changed, 254 insertions(+), 254 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..56bf820 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -1,254 +1,254 @@
-// pool.h --- Created at 2016-05-17
-
-#ifndef POCKETKALDI_POOL_H_
-#define POCKETKALDI_POOL_H_
-
-#include <stdio.h>
-#include <vector>
-#include <unordered_set>
-#include <memory>
-#include <type_traits>
-#include "util.h"
-
-namespace pocketkaldi {
-
-// Pool is a class to optimize allocating large number of a class T.
-template<typename T, int BLOCK_SIZE = 4096>
-class Pool {
- public:
-  Pool() : current_block_(0), current_pos_(0) {
-    T *block = reinterpret_cast<T *>(::operator new(sizeof(T) * BLOCK_SIZE));
-    blocks_.push_back(block);
-  }
-
-  virtual ~Pool() {
-    Clear();
-    for (T *block : blocks_) {
-      ::operator delete(block);
-    }
-    current_block_ = 0;
-    current_pos_ = 0;
-  }
-
-  // Allocate a class T with constructor parameter args 
-  template<typename... Args>
-  T *Alloc(Args&&... args) {
-    T *memory;
-    if (free_.empty()) {
-      assert(current_pos_ <= BLOCK_SIZE);
-      if (current_pos_ == BLOCK_SIZE) {
-        if (current_block_ == blocks_.size() - 1) {
-          T *block = reinterpret_cast<T *>(
-              ::operator new(sizeof(T) * BLOCK_SIZE));
-          blocks_.push_back(block);
-        }
-        ++current_block_;
-        current_pos_ = 0;
-      }
-      memory = blocks_[current_block_] + current_pos_;
-      ++current_pos_;
-    } else {
-      memory = free_.back();
-      free_.pop_back();
-    }
-
-    new (memory) T(std::forward<Args>(args)...);
-    return memory;
-  }
-
-  // Allocate a class T with constructor parameter args 
-  void Dealloc(T *pointer) {
-    if (!std::is_trivially_destructible<T>::value) {
-      pointer->~T();
-    }
-    free_.push_back(pointer);
-  }
-
-  // Clear all allocated class T
-  void Clear() {
-    // Call the dtor
-
-    // Element in free_ is already destructed
-    std::unordered_set<T *> freed;
-    for (T *elem : free_) {
-      freed.insert(elem);
-    }
-
-    if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
-        T *block = blocks_[block_idx];
-        for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
-          if (freed.find(block + idx) == freed.end()) {
-            block[idx].~T();
-          }
-        }
-      }
-
-      // The last block
-      T *last_block = blocks_.back();
-      for (int idx = 0; idx < current_pos_; ++idx) {
-        if (freed.find(last_block + idx) == freed.end()) {
-          last_block[idx].~T();
-        }
-      }
-    }
-
-    current_block_ = 0;
-    current_pos_ = 0;
-    free_.clear();
-  }
-
-  // Free and allocated nodes in this pool
-  int free_nodes() const {
-    return free_.size() +
-           (blocks_.size() - current_block_) * BLOCK_SIZE -
-           current_pos_;
-  }
-  int allocated_nodes() const {
-    return current_block_ * BLOCK_SIZE + current_pos_ - free_.size();
-  }
-
- protected:
-  std::vector<T *> blocks_;
-  std::vector<T *> free_;
-  int current_block_;
-  int current_pos_;
-};
-
-// Base class for any class T could be used in GCPool
-class Collectable {
- public:
-  enum {
-    kMarked,
-    kUnmarked,
-    kFreed,
-    kUsing
-  };
-  Collectable() : state_(kFreed) {}
-
-  // Indicates this node is freed or under using
-  void Free() { state_ = kFreed; }
-  void Use() { state_ = kUsing; }
-
-  // Mark and ummark in GC
-  void Mark() { 
-    assert(state_ != kFreed);
-    state_ = kMarked; 
-  }
-  void Unmark() { 
-    assert(state_ != kFreed);
-    state_ = kUnmarked;
-  }
-
-  bool is_marked() const { return state_ == kMarked; }
-  bool is_freed() const { return state_ == kFreed; }
-
-  // This function will be called when object is going to be collected
-  virtual void OnCollect() {}
-
- private:
-  int8_t state_;
-};
-
-// GC pool add gabbage collection into Pool. Using mark-and-sweep algorithm. 
-// And the class T linked with each othher with 'previous()' pointer.
-// So the type T should have at least 4 members
-//   T *previous()
-//   void mark()
-//   void unmark()
-//   bool marked()
-template<typename T, int BLOCK_SIZE = 4096>
-class GCPool : public Pool<T, BLOCK_SIZE> {
- public:
-  GCPool() {
-  }
-
-  template<typename... Args>
-  T *Alloc(Args&&... args) {
-    T *node = Pool<T, BLOCK_SIZE>::Alloc(std::forward<Args>(args)...);
-    node->Use();
-    return node;
-  }
-
-  void Dealloc(T *pointer) {
-    pointer->Free();
-    Pool<T, BLOCK_SIZE>::Dealloc(pointer);
-  }
-
-  // Start gabbage collection. Root set for GC is in root_nodes
-  void GC(const std::vector<T *> root_nodes) {
-    PK_DEBUG("=== GC Start ===");
-    int free_nodes = this->free_nodes();
-    int allocated_nodes = this->allocated_nodes();
-
-    // Unmark all elements
-    for (int block = 0; block <= this->current_block_; ++block) {
-      int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
-          BLOCK_SIZE;
-      for (int pos = 0; pos < max_pos; ++pos) {
-        // Bypass the nodes already freed
-        if (this->blocks_[block][pos].is_freed()) continue;
-        this->blocks_[block][pos].Unmark();
-      }
-    }
-
-    // Push the root set into queue. Then traverse all nodes linked directly or
-    // indirectly by root set
-    std::vector<T *> queue(root_nodes.begin(), root_nodes.end());
-    while (!queue.empty()) {
-      T *node = queue.back();
-      queue.pop_back();
-
-      // Ignore nodes that already marked
-      if (node->is_marked()) continue;
-      
-      // Freed node shouldn't be pointed by existing nodes
-      assert(!node->is_freed());
-
-      node->Mark();
-      if (node->previous()) {
-        queue.push_back(node->previous());
-      }
-    }
-
-    // Dispose all unmarked nodes
-    std::vector<T *> nodes_to_free;
-    int free_count = 0;
-    for (int block = 0; block <= this->current_block_; ++block) {
-      int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
-          BLOCK_SIZE;
-      for (int pos = 0; pos < max_pos; ++pos) {
-        // Bypass the nodes already freed
-        T *node = this->blocks_[block] + pos;
-        if (node->is_freed()) continue;
-        if (node->is_marked()) continue;
-
-        // Call OnCollect to release resources in nodes
-        node->OnCollect();
-
-        // Change state to free. We mark it free here beacuse it would be used
-        // in OnCollect function of other nodes
-        node->Free();
-
-        nodes_to_free.push_back(node);
-        ++free_count;
-      }
-    }
-
-    for (T *node : nodes_to_free) {
-      Dealloc(node);
-    }
-
-    PK_DEBUG(util::Format(
-        "Freed {} nodes, Allocated = {}",
-        free_count,
-        this->allocated_nodes()));
-    PK_DEBUG("=== GC Finsihed ===");
-  }
-};
-
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_POOL_H_
+// pool.h --- Created at 2016-05-17
+
+#ifndef POCKETKALDI_POOL_H_
+#define POCKETKALDI_POOL_H_
+
+#include <stdio.h>
+#include <vector>
+#include <unordered_set>
+#include <memory>
+#include <type_traits>
+#include "util.h"
+
+namespace pocketkaldi {
+
+// Pool is a class to optimize allocating large number of a class T.
+template<typename T, int BLOCK_SIZE = 4096>
+class Pool {
+ public:
+  Pool() : current_block_(0), current_pos_(0) {
+    T *block = reinterpret_cast<T *>(::operator new(sizeof(T) * BLOCK_SIZE));
+    blocks_.push_back(block);
+  }
+
+  virtual ~Pool() {
+    Clear();
+    for (T *block : blocks_) {
+      ::operator delete(block);
+    }
+    current_block_ = 0;
+    current_pos_ = 0;
+  }
+
+  // Allocate a class T with constructor parameter args 
+  template<typename... Args>
+  T *Alloc(Args&&... args) {
+    T *memory;
+    if (free_.empty()) {
+      assert(current_pos_ <= BLOCK_SIZE);
+      if (current_pos_ == BLOCK_SIZE) {
+        if (current_block_ == blocks_.size() - 1) {
+          T *block = reinterpret_cast<T *>(
+              ::operator new(sizeof(T) * BLOCK_SIZE));
+          blocks_.push_back(block);
+        }
+        ++current_block_;
+        current_pos_ = 0;
+      }
+      memory = blocks_[current_block_] + current_pos_;
+      ++current_pos_;
+    } else {
+      memory = free_.back();
+      free_.pop_back();
+    }
+
+    new (memory) T(std::forward<Args>(args)...);
+    return memory;
+  }
+
+  // Allocate a class T with constructor parameter args 
+  void Dealloc(T *pointer) {
+    if (!std::is_trivially_destructible<T>::value) {
+      pointer->~T();
+    }
+    free_.push_back(pointer);
+  }
+
+  // Clear all allocated class T
+  void Clear() {
+    // Call the dtor
+
+    // Element in free_ is already destructed
+    std::unordered_set<T *> freed;
+    for (T *elem : free_) {
+      freed.insert(elem);
+    }
+
+    if (!std::is_trivially_destructible<T>::value) {
+      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+        T *block = blocks_[block_idx];
+        for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
+          if (freed.find(block + idx) == freed.end()) {
+            block[idx].~T();
+          }
+        }
+      }
+
+      // The last block
+      T *last_block = blocks_.back();
+      for (int idx = 0; idx < current_pos_; ++idx) {
+        if (freed.find(last_block + idx) == freed.end()) {
+          last_block[idx].~T();
+        }
+      }
+    }
+
+    current_block_ = 0;
+    current_pos_ = 0;
+    free_.clear();
+  }
+
+  // Free and allocated nodes in this pool
+  int free_nodes() const {
+    return free_.size() +
+           (blocks_.size() - current_block_) * BLOCK_SIZE -
+           current_pos_;
+  }
+  int allocated_nodes() const {
+    return current_block_ * BLOCK_SIZE + current_pos_ - free_.size();
+  }
+
+ protected:
+  std::vector<T *> blocks_;
+  std::vector<T *> free_;
+  int current_block_;
+  int current_pos_;
+};
+
+// Base class for any class T could be used in GCPool
+class Collectable {
+ public:
+  enum {
+    kMarked,
+    kUnmarked,
+    kFreed,
+    kUsing
+  };
+  Collectable() : state_(kFreed) {}
+
+  // Indicates this node is freed or under using
+  void Free() { state_ = kFreed; }
+  void Use() { state_ = kUsing; }
+
+  // Mark and ummark in GC
+  void Mark() { 
+    assert(state_ != kFreed);
+    state_ = kMarked; 
+  }
+  void Unmark() { 
+    assert(state_ != kFreed);
+    state_ = kUnmarked;
+  }
+
+  bool is_marked() const { return state_ == kMarked; }
+  bool is_freed() const { return state_ == kFreed; }
+
+  // This function will be called when object is going to be collected
+  virtual void OnCollect() {}
+
+ private:
+  int8_t state_;
+};
+
+// GC pool add gabbage collection into Pool. Using mark-and-sweep algorithm. 
+// And the class T linked with each othher with 'previous()' pointer.
+// So the type T should have at least 4 members
+//   T *previous()
+//   void mark()
+//   void unmark()
+//   bool marked()
+template<typename T, int BLOCK_SIZE = 4096>
+class GCPool : public Pool<T, BLOCK_SIZE> {
+ public:
+  GCPool() {
+  }
+
+  template<typename... Args>
+  T *Alloc(Args&&... args) {
+    T *node = Pool<T, BLOCK_SIZE>::Alloc(std::forward<Args>(args)...);
+    node->Use();
+    return node;
+  }
+
+  void Dealloc(T *pointer) {
+    pointer->Free();
+    Pool<T, BLOCK_SIZE>::Dealloc(pointer);
+  }
+
+  // Start gabbage collection. Root set for GC is in root_nodes
+  void GC(const std::vector<T *> root_nodes) {
+    PK_DEBUG("=== GC Start ===");
+    int free_nodes = this->free_nodes();
+    int allocated_nodes = this->allocated_nodes();
+
+    // Unmark all elements
+    for (int block = 0; block <= this->current_block_; ++block) {
+      int max_pos = block == this->current_block_ ?
+          this->current_pos_ :
+          BLOCK_SIZE;
+      for (int pos = 0; pos < max_pos; ++pos) {
+        // Bypass the nodes already freed
+        if (this->blocks_[block][pos].is_freed()) continue;
+        this->blocks_[block][pos].Unmark();
+      }
+    }
+
+    // Push the root set into queue. Then traverse all nodes linked directly or
+    // indirectly by root set
+    std::vector<T *> queue(root_nodes.begin(), root_nodes.end());
+    while (!queue.empty()) {
+      T *node = queue.back();
+      queue.pop_back();
+
+      // Ignore nodes that already marked
+      if (node->is_marked()) continue;
+      
+      // Freed node shouldn't be pointed by existing nodes
+      assert(!node->is_freed());
+
+      node->Mark();
+      if (node->previous()) {
+        queue.push_back(node->previous());
+      }
+    }
+
+    // Dispose all unmarked nodes
+    std::vector<T *> nodes_to_free;
+    int free_count = 0;
+    for (int block = 0; block <= this->current_block_; ++block) {
+      int max_pos = block == this->current_block_ ?
+          this->current_pos_ :
+          BLOCK_SIZE;
+      for (int pos = 0; pos < max_pos; ++pos) {
+        // Bypass the nodes already freed
+        T *node = this->blocks_[block] + pos;
+        if (node->is_freed()) continue;
+        if (node->is_marked()) continue;
+
+        // Call OnCollect to release resources in nodes
+        node->OnCollect();
+
+        // Change state to free. We mark it free here beacuse it would be used
+        // in OnCollect function of other nodes
+        node->Free();
+
+        nodes_to_free.push_back(node);
+        ++free_count;
+      }
+    }
+
+    for (T *node : nodes_to_free) {
+      Dealloc(node);
+    }
+
+    PK_DEBUG(util::Format(
+        "Freed {} nodes, Allocated = {}",
+        free_count,
+        this->allocated_nodes()));
+    PK_DEBUG("=== GC Finsihed ===");
+  }
+};
+
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_POOL_H_
-- 
2.43.0


From 3e799ec5563dcf9c21179fdbb2e3396d4bbf49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 02/38] fix: Pool::Clear must only destruct slots that are in
 use

After a first Clear() the pool keeps its blocks but starts again in the first
one. A second Clear() (or the destructor) destructed every slot of all other
blocks again.
---
 src/pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 56bf820..20398cd 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -84,8 +84,8 @@ class Pool {
         }
       }
 
-      // The last block
-      T *last_block = blocks_.back();
+      // The last block in use
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From 46e47cfb24afc72c9f64b9a55fabecd9d052b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 03/38] fix: Decoder::BestPath must not add the final cost
 twice

The final cost is already part of best_cost at the end of stream, and must not
be added (it is usually infinite) before it.
---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..cc5b842 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -425,7 +425,6 @@ Decoder::Hypothesis Decoder::BestPath() {
   }
 
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From f5ca22978aa7802d976e4e94c3dbfc95452eef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 04/38] fix: Decoder::Initialize must reset the state index and
 end-of-stream flag

Initializing a decoder again looked up token indices of the previous utterance
in the emptied token list.
---
 src/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index cc5b842..a3862a6 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -105,6 +105,8 @@ void Decoder::Initialize() {
   // Prepare beams
   toks_.clear();
   prev_toks_.clear();
+  state_idx_.Clear();
+  is_end_of_stream_ = false;
 
   // Initialize decoding:
   int start_state = fst_->Start();
-- 
2.43.0


From 19db5f8856463f5fe7ce9ed7ebfe28f5efcba9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 05/38] fix: do not read the first token of an empty beam in
 Decoder::GetCutoff

Process() crashed when it was called again after the beam went empty.
---
 src/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index a3862a6..127aa53 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -182,6 +182,9 @@ bool Decoder::InsertTok(
 
 double Decoder::GetCutoff(float *adaptive_beam, Token **best_tok) {
   double best_cost = INFINITY;
+
+  // No active tokens
+  if (prev_toks_.empty()) return INFINITY;
   *best_tok = prev_toks_[0];
 
   costs_.clear();
-- 
2.43.0


From 5edbd369db5c6d7174e4cd567f73c78d3d5ee262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 06/38] fix: release pruned and replaced tokens in Decoder

Tokens dropped by the beam or replaced by a better one were never given back to
the token pool, so memory grew with every frame of an utterance.
---
 src/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 127aa53..bf7585e 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -172,6 +172,7 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      toks_pool_.Dealloc(toks_[tok_idx]);
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
     } else {
       return false;
@@ -344,7 +345,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From 4a2f29164a3c316cb565060e7f9a89c73804ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 07/38] fix: HashTable must grow before its probe sequence can
 run out of buckets

The load factor was checked without the element to insert, so small tables could
fill every bucket reachable by the probe sequence and the next lookup of an
absent key did not terminate (assertion failure).
---
 src/hashtable.h | 387 ++++++++++++++++++++++++------------------------
 1 file changed, 194 insertions(+), 193 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..91f5d99 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -1,193 +1,194 @@
-// hashlist.h --- Created at 2016-11-08
-// hashtable.h ---  Created at 2017-04-10
-
-#ifndef POCKETKALDI_HASHTABLE_H_
-#define POCKETKALDI_HASHTABLE_H_
-
-#include <assert.h>
-#include <stdint.h>
-#include <stdbool.h>
-#include <functional>
-#include "ce_stt.h"
-
-namespace pocketkaldi {
-
-extern int gPrimeNumbers[32];
-
-// Hash fucntions
-inline int32_t hash(int32_t x) {
-  return x;
-}
-
-// A open addressing implementation of hashtable
-// It assumes both K and V are prime types. So value copy won't cost too much
-// time. Usually, K is int and V is int or pointer
-template<typename K, typename V>
-class HashTable {
- public:
-  static constexpr int kDefaultCap = 1024;
-  static constexpr double kLoadFactor = 0.5;
-
-  // Initialize the hashtable. And the bucket size will be the nearest prime
-  // number of initial_cap.
-  HashTable(): HashTable(kDefaultCap) {}
-  HashTable(int initial_cap) {
-    prime_idx_ = NearestPrimeIdx(initial_cap);
-    bucket_size_ = gPrimeNumbers[prime_idx_];
-
-    CreateBuckets(&buckets_, &empty_, bucket_size_);
-    size_ = 0;
-  }
-
-  // Destroy the hashtable.
-  ~HashTable() {
-    size_ = 0;
-    prime_idx_ = 0;
-    bucket_size_ = 0;
-
-    delete[] empty_;
-    empty_ = NULL;
-
-    delete[] buckets_;
-    buckets_ = NULL;
-  }
-
-  // Insert or update an element in the hash table
-  void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
-      ExtendBuckets();
-    }
-
-    int idx = Lookup(buckets_, empty_, bucket_size_, key);
-    if (empty_[idx]) {
-      // Insert
-      buckets_[idx].key = key;
-      buckets_[idx].value = value;
-      empty_[idx] = false;
-      ++size_;
-    } else {
-      // Update
-      assert(buckets_[idx].key == key);
-      buckets_[idx].value = value;
-    }
-  }
-
-  // Find element in the hash table. If the key doesn't exist, return
-  // default_val, else return the value
-  V Find(K key, V default_val) {
-    int idx = Lookup(buckets_, empty_, bucket_size_, key);
-    if (empty_[idx]) {
-      return default_val;
-    } else {
-      assert(buckets_[idx].key == key);
-      return buckets_[idx].value;
-    }
-  }
-
-  // Clear all elements in hashtable
-  void Clear() {
-    size_ = 0;
-    for (int i = 0; i < bucket_size_; ++i) {
-      empty_[i] = true;
-    }
-  }
-
- private:
-  struct Item {
-    K key;
-    V value;
-  };
-
-  Item *buckets_;
-  bool *empty_;  // empty_[i] == true means buckets_[i] is empty
-
-  // bucket_size always equal to prime_numbers[prime_idx]
-  int bucket_size_;
-  int prime_idx_;
-
-  int size_;
-
-  // Get index of the nearest prime number of num in gPrimeNumbers. And the
-  // prime number should greater or equal than num
-  int NearestPrimeIdx(int num) const {
-    assert(num <= 2147483647);  // num < 2^31 - 1
-
-    int num_primes = sizeof(gPrimeNumbers) / sizeof(int);
-    for (int prime_idx = 0; prime_idx < num_primes; ++prime_idx) {
-      int prime_number = gPrimeNumbers[prime_idx];
-      if (prime_number >= num) return prime_idx;
-    }
-
-    assert(false);
-    return -1;
-  }
-
-  // Create and initialize buckets and is_empty array
-  void CreateBuckets(Item **buckets, bool **empty, int bucket_size) const {
-    *buckets = new Item[bucket_size];
-    *empty = new bool[bucket_size];
-    for (int i = 0; i < bucket_size; ++i) {
-      (*empty)[i] = true;
-    }
-  }
-
-  // Find the position that the key will be put. If the key already exists in
-  // buckets, returns the position to it. If the key doesn't exists, returns
-  // the position to put.
-  int Lookup(Item *buckets, bool *empty, int buckets_size, K key) const {
-    int hashval = hash(key) % buckets_size;
-    for (int i = 1; ; ++i) {
-      assert(i < 65536);
-      for (int sign = -1; sign <= 1; sign += 2) {
-        int squared = i * i;
-        int idx = hashval + (sign == -1 ? -squared : squared);
-
-        // Boundary
-        idx = idx % buckets_size;
-        idx = idx < 0 ? idx + buckets_size : idx;
-
-        if (empty[idx] == true) return idx;
-        if (buckets[idx].key == key) return idx;
-      }
-    }
-  }
-
-  // Extend the hashtable, and put the elements into the new bucket
-  void ExtendBuckets() {
-    int new_size = gPrimeNumbers[prime_idx_ + 1];
-
-    // Allocate and initialize the new buckets
-    Item *new_buckets = NULL;
-    bool *new_empty = NULL;
-    CreateBuckets(&new_buckets, &new_empty, new_size);
-
-    // Put each element into new buckets
-    for (int i = 0; i < bucket_size_; ++i) {
-      if (empty_[i]) continue;
-      K key = buckets_[i].key;
-      V value = buckets_[i].value;
-
-      int new_idx = Lookup(new_buckets, new_empty, new_size, key);
-      assert(new_empty[new_idx] && "ExtendBuckets: element already exists");
-
-      new_buckets[new_idx].key = key;
-      new_buckets[new_idx].value = value;
-      new_empty[new_idx] = false;
-    }
-
-    // Free the original buckets and is_empty array
-    delete[] buckets_;
-    delete[] empty_;
-
-    // Replace the buckets and is_empty array
-    buckets_ = new_buckets;
-    empty_ = new_empty;
-    bucket_size_ = new_size;
-    prime_idx_ = prime_idx_ + 1;
-  }
-};
-
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_HASHTABLE_H_
+// hashlist.h --- Created at 2016-11-08
+// hashtable.h ---  Created at 2017-04-10
+
+#ifndef POCKETKALDI_HASHTABLE_H_
+#define POCKETKALDI_HASHTABLE_H_
+
+#include <assert.h>
+#include <stdint.h>
+#include <stdbool.h>
+#include <functional>
+#include "ce_stt.h"
+
+namespace pocketkaldi {
+
+extern int gPrimeNumbers[32];
+
+// Hash fucntions
+inline int32_t hash(int32_t x) {
+  return x;
+}
+
+// A open addressing implementation of hashtable
+// It assumes both K and V are prime types. So value copy won't cost too much
+// time. Usually, K is int and V is int or pointer
+template<typename K, typename V>
+class HashTable {
+ public:
+  static constexpr int kDefaultCap = 1024;
+  static constexpr double kLoadFactor = 0.5;
+
+  // Initialize the hashtable. And the bucket size will be the nearest prime
+  // number of initial_cap.
+  HashTable(): HashTable(kDefaultCap) {}
+  HashTable(int initial_cap) {
+    prime_idx_ = NearestPrimeIdx(initial_cap);
+    bucket_size_ = gPrimeNumbers[prime_idx_];
+
+    CreateBuckets(&buckets_, &empty_, bucket_size_);
+    size_ = 0;
+  }
+
+  // Destroy the hashtable.
+  ~HashTable() {
+    size_ = 0;
+    prime_idx_ = 0;
+    bucket_size_ = 0;
+
+    delete[] empty_;
+    empty_ = NULL;
+
+    delete[] buckets_;
+    buckets_ = NULL;
+  }
+
+  // Insert or update an element in the hash table
+  void Insert(K key, V value) {
+    // Keep the load below kLoadFactor after this insertion, otherwise the
+    // quadratic probing may be unable to find an empty bucket
+    while ((size_ + 1.0) / bucket_size_ > kLoadFactor) {
+      ExtendBuckets();
+    }
+
+    int idx = Lookup(buckets_, empty_, bucket_size_, key);
+    if (empty_[idx]) {
+      // Insert
+      buckets_[idx].key = key;
+      buckets_[idx].value = value;
+      empty_[idx] = false;
+      ++size_;
+    } else {
+      // Update
+      assert(buckets_[idx].key == key);
+      buckets_[idx].value = value;
+    }
+  }
+
+  // Find element in the hash table. If the key doesn't exist, return
+  // default_val, else return the value
+  V Find(K key, V default_val) {
+    int idx = Lookup(buckets_, empty_, bucket_size_, key);
+    if (empty_[idx]) {
+      return default_val;
+    } else {
+      assert(buckets_[idx].key == key);
+      return buckets_[idx].value;
+    }
+  }
+
+  // Clear all elements in hashtable
+  void Clear() {
+    size_ = 0;
+    for (int i = 0; i < bucket_size_; ++i) {
+      empty_[i] = true;
+    }
+  }
+
+ private:
+  struct Item {
+    K key;
+    V value;
+  };
+
+  Item *buckets_;
+  bool *empty_;  // empty_[i] == true means buckets_[i] is empty
+
+  // bucket_size always equal to prime_numbers[prime_idx]
+  int bucket_size_;
+  int prime_idx_;
+
+  int size_;
+
+  // Get index of the nearest prime number of num in gPrimeNumbers. And the
+  // prime number should greater or equal than num
+  int NearestPrimeIdx(int num) const {
+    assert(num <= 2147483647);  // num < 2^31 - 1
+
+    int num_primes = sizeof(gPrimeNumbers) / sizeof(int);
+    for (int prime_idx = 0; prime_idx < num_primes; ++prime_idx) {
+      int prime_number = gPrimeNumbers[prime_idx];
+      if (prime_number >= num) return prime_idx;
+    }
+
+    assert(false);
+    return -1;
+  }
+
+  // Create and initialize buckets and is_empty array
+  void CreateBuckets(Item **buckets, bool **empty, int bucket_size) const {
+    *buckets = new Item[bucket_size];
+    *empty = new bool[bucket_size];
+    for (int i = 0; i < bucket_size; ++i) {
+      (*empty)[i] = true;
+    }
+  }
+
+  // Find the position that the key will be put. If the key already exists in
+  // buckets, returns the position to it. If the key doesn't exists, returns
+  // the position to put.
+  int Lookup(Item *buckets, bool *empty, int buckets_size, K key) const {
+    int hashval = hash(key) % buckets_size;
+    for (int i = 1; ; ++i) {
+      assert(i < 65536);
+      for (int sign = -1; sign <= 1; sign += 2) {
+        int squared = i * i;
+        int idx = hashval + (sign == -1 ? -squared : squared);
+
+        // Boundary
+        idx = idx % buckets_size;
+        idx = idx < 0 ? idx + buckets_size : idx;
+
+        if (empty[idx] == true) return idx;
+        if (buckets[idx].key == key) return idx;
+      }
+    }
+  }
+
+  // Extend the hashtable, and put the elements into the new bucket
+  void ExtendBuckets() {
+    int new_size = gPrimeNumbers[prime_idx_ + 1];
+
+    // Allocate and initialize the new buckets
+    Item *new_buckets = NULL;
+    bool *new_empty = NULL;
+    CreateBuckets(&new_buckets, &new_empty, new_size);
+
+    // Put each element into new buckets
+    for (int i = 0; i < bucket_size_; ++i) {
+      if (empty_[i]) continue;
+      K key = buckets_[i].key;
+      V value = buckets_[i].value;
+
+      int new_idx = Lookup(new_buckets, new_empty, new_size, key);
+      assert(new_empty[new_idx] && "ExtendBuckets: element already exists");
+
+      new_buckets[new_idx].key = key;
+      new_buckets[new_idx].value = value;
+      new_empty[new_idx] = false;
+    }
+
+    // Free the original buckets and is_empty array
+    delete[] buckets_;
+    delete[] empty_;
+
+    // Replace the buckets and is_empty array
+    buckets_ = new_buckets;
+    empty_ = new_empty;
+    bucket_size_ = new_size;
+    prime_idx_ = prime_idx_ + 1;
+  }
+};
+
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_HASHTABLE_H_
-- 
2.43.0


From f58001ed276d90dd2bb2b6dbde08bd1400be0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 08/38] fix: Fbank::Process must not abort on an empty wave

Matrix::Resize only accepts an empty size when both dimensions are zero.
---
 src/fbank.cc | 640 +++++++++++++++++++++++++--------------------------
 1 file changed, 320 insertions(+), 320 deletions(-)

diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..7ff8865 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -1,320 +1,320 @@
-// Created at 2017-01-29
-
-
-#include "fbank.h"
-
-#include <assert.h>
-#include <float.h>
-#include <stdint.h>
-#include <stdio.h>
-#include <math.h>
-#include "pcm_reader.h"
-#include "matrix.h"
-#include "srfft.h"
-
-#define FRAME_SHIFT (int)(PK_SAMPLERATE * 0.001 * PK_FRAMESHIFT_MS)
-#define FRAME_LENGTH (int)(PK_SAMPLERATE * 0.001 * PK_FRAMELENGTH_MS)
-
-#ifndef M_2PI
-#define M_2PI 6.28318530718
-#endif 
-
-namespace pocketkaldi {
-
-int32_t Fbank::RoundUpToNearestPowerOfTwo(int32_t n) const {
-  assert(n > 0);
-  n--;
-  n |= n >> 1;
-  n |= n >> 2;
-  n |= n >> 4;
-  n |= n >> 8;
-  n |= n >> 16;
-  return n + 1;
-}
-
-int Fbank::CalcNumFrames(const VectorBase<float> &wave) const {
-  int num_samples = wave.Dim();
-  if (num_samples < FRAME_LENGTH) {
-    return 0;
-  } else {
-    return (1 + ((num_samples - FRAME_LENGTH) / FRAME_SHIFT));
-  }
-}
-
-void Fbank::ProcessWindow(
-    const VectorBase<float> &window_function,
-    VectorBase<float> *sub_window) const {
-  // Subtract mean from waveform on each frame (--remove-dc-offset=true)
-  float sum = 0;
-  for (int i = 0; i < sub_window->Dim(); ++i) {
-    sum += (*sub_window)(i);
-  }
-  float mean = sum / sub_window->Dim();
-  for (int i = 0; i < sub_window->Dim(); ++i) {
-    (*sub_window)(i) -= mean;
-  }
-
-  // Signal preemphasis (--preemphasis-coefficient=0.97)
-  for (int i = sub_window->Dim() - 1; i > 0; --i) {
-    (*sub_window)(i) -= PK_PREEMPH_COEFF * (*sub_window)(i - 1);
-  }
-  (*sub_window)(0) -= PK_PREEMPH_COEFF * (*sub_window)(0);
-
-  // Apply hamming window
-  assert(window_function.Dim() == sub_window->Dim() &&
-         "dimension of window_function and sub_window mismatch");
-  for (int i = 0; i < window_function.Dim(); ++i) {
-    (*sub_window)(i) *= window_function(i);
-  }
-}
-
-// Extract a frame from wave and store into vector window. The frame should be
-// initialized and have more dimensions than FRAME_LENGTH (Usually the power of
-// 2).
-void Fbank::ExtractWindow(
-    const VectorBase<float> &wave,
-    int frame_idx,
-    const VectorBase<float> &window_function,
-    Vector<float> *window) const {
-  int start_sample = frame_idx * FRAME_SHIFT;
-  int end_sample = start_sample + FRAME_LENGTH;
-
-  // Some assertion of index
-  assert(start_sample >= 0 && end_sample <= wave.Dim() &&
-         "start_sample or end_sample out of range");
-  assert(window->Dim() >= FRAME_LENGTH &&
-         "window->Dim() should be greater than FRAME_LENGTH");
-
-  // Copy samples from wave to window
-  SubVector<float> sub_window = window->Range(0, FRAME_LENGTH);
-  sub_window.CopyFromVec(wave.Range(start_sample, FRAME_LENGTH));
-
-  // Add padding zeros into the rest of vector window
-  int padding_start = FRAME_LENGTH;
-  for (int i = padding_start; i < window->Dim(); ++i) {
-    (*window)(i) = 0.0;
-  }
-
-  // Process window
-  ProcessWindow(window_function, &sub_window);
-}
-
-// Initialize the melbanks.
-Melbanks::Melbanks(int frame_length_padded) {
-  assert(PK_FBANK_DIM >= 3 && "must have at least 3 mel bins");
-  assert(frame_length_padded % 2 == 0);
-
-  float sample_freq = PK_SAMPLERATE;
-  int num_fft_bins = frame_length_padded / 2;
-
-  // fft-bin width (nyquist-freq / num_fft_bins)
-  float fft_bin_width = sample_freq / frame_length_padded;
-  float mel_low_freq = MelScale(PK_FBANK_LOWFREQ);
-  float mel_high_freq = MelScale(PK_FBANK_HIGHFREQ);
-
-  // divide by num_bins+1 in next line because of end-effects where the bins
-  // spread out to the sides.
-  float mel_freq_delta = (mel_high_freq - mel_low_freq) / (PK_FBANK_DIM + 1);
-
-  // Initialize the mel bins
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    fftbin_offset_[i] = 0;
-  }
-
-  // Calculate the fft-bins vector of each bin
-  Vector<float> this_fftbin(num_fft_bins);
-  for (int bin_idx = 0; bin_idx < PK_FBANK_DIM; ++bin_idx) {
-    float left_mel = mel_low_freq + bin_idx * mel_freq_delta;
-    float center_mel = mel_low_freq + (bin_idx + 1) * mel_freq_delta;
-    float right_mel = mel_low_freq + (bin_idx + 2) * mel_freq_delta;
-
-    // Clear this_fftbin
-    this_fftbin.Set(0.0f);
-
-    int first_index = -1;
-    int last_index = -1;
-    for (int i = 0; i < num_fft_bins; ++i) {
-      // Center frequency of this fft bin
-      float freq = fft_bin_width * i;
-      float mel = MelScale(freq);
-
-      if (mel > left_mel && mel < right_mel) {
-        float weight;
-        if (mel <= center_mel) {
-          weight = (mel - left_mel) / (center_mel - left_mel);
-        } else {
-          weight = (right_mel - mel) / (right_mel - center_mel);
-        }
-        this_fftbin(i) = weight;
-        if (first_index == -1) {
-          first_index = i;
-        }
-        last_index = i;
-      }
-    }
-    assert(first_index != -1 && last_index > first_index);
-
-    // Ok, copy this_fftbin into self->bins[bin_idx]
-    fftbin_offset_[bin_idx] = first_index;
-    int size = last_index + 1 - first_index;
-    bins_[bin_idx].Resize(size);
-    bins_[bin_idx].CopyFromVec(this_fftbin.Range(first_index, size));
-  }
-}
-
-void Melbanks::Compute(
-    const Vector<float> &power_spectrum,
-    Vector<float> *mel_energies_out) const {
-  assert(mel_energies_out->Dim() == PK_FBANK_DIM &&
-         "unexpected dim of mel_energies_out");
-
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    int offset = fftbin_offset_[i];
-    const Vector<float> &fftbin = bins_[i];
-    SubVector<float> sub_power_spectrum = power_spectrum.Range(
-        offset,
-        fftbin.Dim());
-    float energy = fftbin.VecVec(sub_power_spectrum);
-    (*mel_energies_out)(i) = energy;
-
-    if (isnan(energy)) {
-      PK_WARN("some dimension of mel_energies_out is NAN");
-    }
-  }
-}
-
-// Destroy the melbanks
-Melbanks::~Melbanks() {
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    fftbin_offset_[i] = 0;
-  }
-}
-
-void Fbank::ComputePowerSpectrum(Vector<float> *window) const {
-  int dim = window->Dim();
-  assert(dim > 0 && "compute_power_spectrum: dim should be greater than 0");
-  // now we have in waveform, first half of complex spectrum
-  // it's stored as [real0, realN/2-1, real1, im1, real2, im2, ...]
-  int half_dim = dim / 2;
-
-  // Handle this special case
-  float first_energy = (*window)(0) * (*window)(0);
-  float last_energy = (*window)(1) * (*window)(1);
-
-  for (int i = 1; i < half_dim; ++i) {
-    float real = (*window)(i * 2);
-    float im = (*window)(i * 2 + 1);
-    (*window)(i) = real * real + im * im;
-  }
-  (*window)(0) = first_energy;
-  (*window)(half_dim) = last_energy;
-}
-
-// Compute the fbank feature for window, and return as feature. It also needs
-// a buffer_vector, which would be used in srfft computation. The size of
-// buffer_vector should be no less than frame_length_padded
-//
-// NOTE: window will be changed during computation
-//
-void Fbank::ComputeFrame(
-    Vector<float> *window,
-    Vector<float> *feature,
-    Vector<float> *buffer) const {
-  assert(buffer->Dim() >= frame_length_padded_ && "buffer too small");
-  assert(feature->Dim() == PK_FBANK_DIM && "feature size mismatch");
-
-  // Compute FFT using split-radix algorithm. It just overwrites the data in
-  // window 
-  srfft_.Compute(
-      window->Data(),
-      window->Dim(),
-      true,
-      buffer->Data(),
-      buffer->Dim());
-
-  // Compute power spectrum
-  ComputePowerSpectrum(window);
-  SubVector<float> power_spectrum = window->Range(0, window->Dim() / 2 + 1);
-
-  // Sum with mel fiterbanks over the power spectrum
-  melbanks_.Compute(*window, feature);
-
-  // Use log energy here
-  feature->ApplyFloor(FLT_EPSILON);
-  feature->ApplyLog();
-}
-
-// Initialize the hamming window according to FRAME_LENGTH
-void Fbank::HammingWindowInit(Vector<float> *window) {
-  window->Resize(FRAME_LENGTH);
-  float a = M_2PI / (FRAME_LENGTH - 1);
-  for (int i = 0; i < FRAME_LENGTH; ++i) {
-    float i_fl = (float)i;
-    (*window)(i) = 0.54 - 0.46 * cos(a * i_fl);
-  }
-}
-
-Fbank::Fbank() :
-    frame_length_padded_(RoundUpToNearestPowerOfTwo(FRAME_LENGTH)),
-    melbanks_(frame_length_padded_),
-    srfft_(frame_length_padded_) {
-  // Hamming window
-  HammingWindowInit(&window_function_);
-}
-
-void Fbank::Process(
-    Instance *inst,
-    const VectorBase<float> &wave,
-    Matrix<float> *fbank_feature) const {
-  // Do nothing when wave is empty
-  if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
-    return;
-  }
-
-  // Append wave to wave buffer
-  int original_size = inst->wave_buffer.Dim();
-  inst->wave_buffer.Resize(inst->wave_buffer.Dim() + wave.Dim(),
-                           Vector<float>::kCopyData);
-  inst->wave_buffer.Range(original_size, inst->wave_buffer.Dim() - original_size)
-                   .CopyFromVec(wave);
-
-  // Ok, now we start to process wave_buffer_
-
-  int num_frames = CalcNumFrames(inst->wave_buffer);
-  if (num_frames == 0) {
-    fbank_feature->Resize(0, 0);
-    return;
-  }
-
-  fbank_feature->Resize(num_frames, PK_FBANK_DIM);
-
-
-  // Extract fbank feature frame by frame
-  Vector<float> window(frame_length_padded_, Vector<float>::kUndefined),
-                buffer(frame_length_padded_, Vector<float>::kUndefined),
-                frame_feat(PK_FBANK_DIM, Vector<float>::kUndefined);
-  for (int i = 0; i < num_frames; ++i) {
-    ExtractWindow(inst->wave_buffer, i, window_function_, &window);
-    ComputeFrame(&window, &frame_feat, &buffer);
-
-    // Store the value back to frame
-    fbank_feature->Row(i).CopyFromVec(frame_feat);
-  }
-
-  // Remove useless sampels from wave_buffer_
-  int frames_to_remove = FRAME_SHIFT * num_frames;
-  int next_buffer_size = inst->wave_buffer.Dim() - frames_to_remove;
-  Vector<float> next_buffer;
-  next_buffer.Resize(next_buffer_size);
-  next_buffer.CopyFromVec(inst->wave_buffer.Range(frames_to_remove, next_buffer_size));
-
-  inst->wave_buffer.Resize(next_buffer_size);
-  inst->wave_buffer.CopyFromVec(next_buffer);
-}
-
-Fbank::~Fbank() {
-  frame_length_padded_ = 0;
-}
-
-}  //namespace pocketkaldi
+// Created at 2017-01-29
+
+
+#include "fbank.h"
+
+#include <assert.h>
+#include <float.h>
+#include <stdint.h>
+#include <stdio.h>
+#include <math.h>
+#include "pcm_reader.h"
+#include "matrix.h"
+#include "srfft.h"
+
+#define FRAME_SHIFT (int)(PK_SAMPLERATE * 0.001 * PK_FRAMESHIFT_MS)
+#define FRAME_LENGTH (int)(PK_SAMPLERATE * 0.001 * PK_FRAMELENGTH_MS)
+
+#ifndef M_2PI
+#define M_2PI 6.28318530718
+#endif 
+
+namespace pocketkaldi {
+
+int32_t Fbank::RoundUpToNearestPowerOfTwo(int32_t n) const {
+  assert(n > 0);
+  n--;
+  n |= n >> 1;
+  n |= n >> 2;
+  n |= n >> 4;
+  n |= n >> 8;
+  n |= n >> 16;
+  return n + 1;
+}
+
+int Fbank::CalcNumFrames(const VectorBase<float> &wave) const {
+  int num_samples = wave.Dim();
+  if (num_samples < FRAME_LENGTH) {
+    return 0;
+  } else {
+    return (1 + ((num_samples - FRAME_LENGTH) / FRAME_SHIFT));
+  }
+}
+
+void Fbank::ProcessWindow(
+    const VectorBase<float> &window_function,
+    VectorBase<float> *sub_window) const {
+  // Subtract mean from waveform on each frame (--remove-dc-offset=true)
+  float sum = 0;
+  for (int i = 0; i < sub_window->Dim(); ++i) {
+    sum += (*sub_window)(i);
+  }
+  float mean = sum / sub_window->Dim();
+  for (int i = 0; i < sub_window->Dim(); ++i) {
+    (*sub_window)(i) -= mean;
+  }
+
+  // Signal preemphasis (--preemphasis-coefficient=0.97)
+  for (int i = sub_window->Dim() - 1; i > 0; --i) {
+    (*sub_window)(i) -= PK_PREEMPH_COEFF * (*sub_window)(i - 1);
+  }
+  (*sub_window)(0) -= PK_PREEMPH_COEFF * (*sub_window)(0);
+
+  // Apply hamming window
+  assert(window_function.Dim() == sub_window->Dim() &&
+         "dimension of window_function and sub_window mismatch");
+  for (int i = 0; i < window_function.Dim(); ++i) {
+    (*sub_window)(i) *= window_function(i);
+  }
+}
+
+// Extract a frame from wave and store into vector window. The frame should be
+// initialized and have more dimensions than FRAME_LENGTH (Usually the power of
+// 2).
+void Fbank::ExtractWindow(
+    const VectorBase<float> &wave,
+    int frame_idx,
+    const VectorBase<float> &window_function,
+    Vector<float> *window) const {
+  int start_sample = frame_idx * FRAME_SHIFT;
+  int end_sample = start_sample + FRAME_LENGTH;
+
+  // Some assertion of index
+  assert(start_sample >= 0 && end_sample <= wave.Dim() &&
+         "start_sample or end_sample out of range");
+  assert(window->Dim() >= FRAME_LENGTH &&
+         "window->Dim() should be greater than FRAME_LENGTH");
+
+  // Copy samples from wave to window
+  SubVector<float> sub_window = window->Range(0, FRAME_LENGTH);
+  sub_window.CopyFromVec(wave.Range(start_sample, FRAME_LENGTH));
+
+  // Add padding zeros into the rest of vector window
+  int padding_start = FRAME_LENGTH;
+  for (int i = padding_start; i < window->Dim(); ++i) {
+    (*window)(i) = 0.0;
+  }
+
+  // Process window
+  ProcessWindow(window_function, &sub_window);
+}
+
+// Initialize the melbanks.
+Melbanks::Melbanks(int frame_length_padded) {
+  assert(PK_FBANK_DIM >= 3 && "must have at least 3 mel bins");
+  assert(frame_length_padded % 2 == 0);
+
+  float sample_freq = PK_SAMPLERATE;
+  int num_fft_bins = frame_length_padded / 2;
+
+  // fft-bin width (nyquist-freq / num_fft_bins)
+  float fft_bin_width = sample_freq / frame_length_padded;
+  float mel_low_freq = MelScale(PK_FBANK_LOWFREQ);
+  float mel_high_freq = MelScale(PK_FBANK_HIGHFREQ);
+
+  // divide by num_bins+1 in next line because of end-effects where the bins
+  // spread out to the sides.
+  float mel_freq_delta = (mel_high_freq - mel_low_freq) / (PK_FBANK_DIM + 1);
+
+  // Initialize the mel bins
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    fftbin_offset_[i] = 0;
+  }
+
+  // Calculate the fft-bins vector of each bin
+  Vector<float> this_fftbin(num_fft_bins);
+  for (int bin_idx = 0; bin_idx < PK_FBANK_DIM; ++bin_idx) {
+    float left_mel = mel_low_freq + bin_idx * mel_freq_delta;
+    float center_mel = mel_low_freq + (bin_idx + 1) * mel_freq_delta;
+    float right_mel = mel_low_freq + (bin_idx + 2) * mel_freq_delta;
+
+    // Clear this_fftbin
+    this_fftbin.Set(0.0f);
+
+    int first_index = -1;
+    int last_index = -1;
+    for (int i = 0; i < num_fft_bins; ++i) {
+      // Center frequency of this fft bin
+      float freq = fft_bin_width * i;
+      float mel = MelScale(freq);
+
+      if (mel > left_mel && mel < right_mel) {
+        float weight;
+        if (mel <= center_mel) {
+          weight = (mel - left_mel) / (center_mel - left_mel);
+        } else {
+          weight = (right_mel - mel) / (right_mel - center_mel);
+        }
+        this_fftbin(i) = weight;
+        if (first_index == -1) {
+          first_index = i;
+        }
+        last_index = i;
+      }
+    }
+    assert(first_index != -1 && last_index > first_index);
+
+    // Ok, copy this_fftbin into self->bins[bin_idx]
+    fftbin_offset_[bin_idx] = first_index;
+    int size = last_index + 1 - first_index;
+    bins_[bin_idx].Resize(size);
+    bins_[bin_idx].CopyFromVec(this_fftbin.Range(first_index, size));
+  }
+}
+
+void Melbanks::Compute(
+    const Vector<float> &power_spectrum,
+    Vector<float> *mel_energies_out) const {
+  assert(mel_energies_out->Dim() == PK_FBANK_DIM &&
+         "unexpected dim of mel_energies_out");
+
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    int offset = fftbin_offset_[i];
+    const Vector<float> &fftbin = bins_[i];
+    SubVector<float> sub_power_spectrum = power_spectrum.Range(
+        offset,
+        fftbin.Dim());
+    float energy = fftbin.VecVec(sub_power_spectrum);
+    (*mel_energies_out)(i) = energy;
+
+    if (isnan(energy)) {
+      PK_WARN("some dimension of mel_energies_out is NAN");
+    }
+  }
+}
+
+// Destroy the melbanks
+Melbanks::~Melbanks() {
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    fftbin_offset_[i] = 0;
+  }
+}
+
+void Fbank::ComputePowerSpectrum(Vector<float> *window) const {
+  int dim = window->Dim();
+  assert(dim > 0 && "compute_power_spectrum: dim should be greater than 0");
+  // now we have in waveform, first half of complex spectrum
+  // it's stored as [real0, realN/2-1, real1, im1, real2, im2, ...]
+  int half_dim = dim / 2;
+
+  // Handle this special case
+  float first_energy = (*window)(0) * (*window)(0);
+  float last_energy = (*window)(1) * (*window)(1);
+
+  for (int i = 1; i < half_dim; ++i) {
+    float real = (*window)(i * 2);
+    float im = (*window)(i * 2 + 1);
+    (*window)(i) = real * real + im * im;
+  }
+  (*window)(0) = first_energy;
+  (*window)(half_dim) = last_energy;
+}
+
+// Compute the fbank feature for window, and return as feature. It also needs
+// a buffer_vector, which would be used in srfft computation. The size of
+// buffer_vector should be no less than frame_length_padded
+//
+// NOTE: window will be changed during computation
+//
+void Fbank::ComputeFrame(
+    Vector<float> *window,
+    Vector<float> *feature,
+    Vector<float> *buffer) const {
+  assert(buffer->Dim() >= frame_length_padded_ && "buffer too small");
+  assert(feature->Dim() == PK_FBANK_DIM && "feature size mismatch");
+
+  // Compute FFT using split-radix algorithm. It just overwrites the data in
+  // window 
+  srfft_.Compute(
+      window->Data(),
+      window->Dim(),
+      true,
+      buffer->Data(),
+      buffer->Dim());
+
+  // Compute power spectrum
+  ComputePowerSpectrum(window);
+  SubVector<float> power_spectrum = window->Range(0, window->Dim() / 2 + 1);
+
+  // Sum with mel fiterbanks over the power spectrum
+  melbanks_.Compute(*window, feature);
+
+  // Use log energy here
+  feature->ApplyFloor(FLT_EPSILON);
+  feature->ApplyLog();
+}
+
+// Initialize the hamming window according to FRAME_LENGTH
+void Fbank::HammingWindowInit(Vector<float> *window) {
+  window->Resize(FRAME_LENGTH);
+  float a = M_2PI / (FRAME_LENGTH - 1);
+  for (int i = 0; i < FRAME_LENGTH; ++i) {
+    float i_fl = (float)i;
+    (*window)(i) = 0.54 - 0.46 * cos(a * i_fl);
+  }
+}
+
+Fbank::Fbank() :
+    frame_length_padded_(RoundUpToNearestPowerOfTwo(FRAME_LENGTH)),
+    melbanks_(frame_length_padded_),
+    srfft_(frame_length_padded_) {
+  // Hamming window
+  HammingWindowInit(&window_function_);
+}
+
+void Fbank::Process(
+    Instance *inst,
+    const VectorBase<float> &wave,
+    Matrix<float> *fbank_feature) const {
+  // Do nothing when wave is empty
+  if (wave.Dim() == 0) {
+    fbank_feature->Resize(0, 0);
+    return;
+  }
+
+  // Append wave to wave buffer
+  int original_size = inst->wave_buffer.Dim();
+  inst->wave_buffer.Resize(inst->wave_buffer.Dim() + wave.Dim(),
+                           Vector<float>::kCopyData);
+  inst->wave_buffer.Range(original_size, inst->wave_buffer.Dim() - original_size)
+                   .CopyFromVec(wave);
+
+  // Ok, now we start to process wave_buffer_
+
+  int num_frames = CalcNumFrames(inst->wave_buffer);
+  if (num_frames == 0) {
+    fbank_feature->Resize(0, 0);
+    return;
+  }
+
+  fbank_feature->Resize(num_frames, PK_FBANK_DIM);
+
+
+  // Extract fbank feature frame by frame
+  Vector<float> window(frame_length_padded_, Vector<float>::kUndefined),
+                buffer(frame_length_padded_, Vector<float>::kUndefined),
+                frame_feat(PK_FBANK_DIM, Vector<float>::kUndefined);
+  for (int i = 0; i < num_frames; ++i) {
+    ExtractWindow(inst->wave_buffer, i, window_function_, &window);
+    ComputeFrame(&window, &frame_feat, &buffer);
+
+    // Store the value back to frame
+    fbank_feature->Row(i).CopyFromVec(frame_feat);
+  }
+
+  // Remove useless sampels from wave_buffer_
+  int frames_to_remove = FRAME_SHIFT * num_frames;
+  int next_buffer_size = inst->wave_buffer.Dim() - frames_to_remove;
+  Vector<float> next_buffer;
+  next_buffer.Resize(next_buffer_size);
+  next_buffer.CopyFromVec(inst->wave_buffer.Range(frames_to_remove, next_buffer_size));
+
+  inst->wave_buffer.Resize(next_buffer_size);
+  inst->wave_buffer.CopyFromVec(next_buffer);
+}
+
+Fbank::~Fbank() {
+  frame_length_padded_ = 0;
+}
+
+}  //namespace pocketkaldi
-- 
2.43.0


From d87118a9a69aa990a23d52d61c39d27175ab369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 09/38] fix: Matrix::Read must report errors of its rows

The status of reading a row was ignored, so truncated or corrupted rows were
accepted silently.
---
 src/matrix.cc | 846 +++++++++++++++++++++++++-------------------------
 1 file changed, 423 insertions(+), 423 deletions(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..a50730f 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -1,423 +1,423 @@
-// 2017-01-27
-
-#include "matrix.h"
-
-#include <assert.h>
-#include <stdlib.h>
-#include <string.h>
-#include <math.h>
-#include <cblas.h>
-#include <limits>
-#include "util.h"
-
-#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
-
-namespace pocketkaldi {
-
-using gemmlowp::eight_bit_int_gemm::BitDepthSetting;
-using gemmlowp::eight_bit_int_gemm::EightBitIntGemm;
-
-template<typename Real>
-void MatrixBase<Real>::CopyFromMat(const MatrixBase<Real> &M, int trans) {
-  if (trans == kNoTrans) {
-    assert(num_rows_ == M.NumRows() && num_cols_ == M.NumCols());
-    for (int i = 0; i < num_rows_; i++) {
-      (*this).Row(i).CopyFromVec(M.Row(i));
-    }
-  } else {
-    assert(num_cols_ == M.NumRows() && num_rows_ == M.NumCols());
-    int this_stride = stride_, other_stride = M.Stride();
-    Real *this_data = data_;
-    const Real *other_data = M.Data();
-    for (int i = 0; i < num_rows_; i++) {
-      for (int j = 0; j < num_cols_; j++) {
-        this_data[i * this_stride + j] = other_data[j * other_stride + i];
-      }
-    }
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Swap(Matrix<Real> *other) {
-  std::swap(this->data_, other->data_);
-  std::swap(this->num_cols_, other->num_cols_);
-  std::swap(this->num_rows_, other->num_rows_);
-  std::swap(this->stride_, other->stride_);
-}
-
-template<typename Real>
-void MatrixBase<Real>::Transpose() {
-  assert(num_rows_ == num_cols_);
-  int M = num_rows_;
-  for (int i = 0;i < M;i++) {
-    for (int j = 0;j < i;j++) {
-      Real &a = (*this)(i, j), &b = (*this)(j, i);
-      std::swap(a, b);
-    }
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Init(
-    const int rows,
-    const int cols,
-    const int stride_type) {
-  if (rows * cols == 0) {
-    assert(rows == 0 && cols == 0);
-    this->num_rows_ = 0;
-    this->num_cols_ = 0;
-    this->stride_ = 0;
-    this->data_ = NULL;
-    return;
-  }
-  assert(rows > 0 && cols > 0);
-  int skip, stride;
-  size_t size;
-  void *data;  // aligned memory block
-
-  // compute the size of skip and real cols
-  skip = ((16 / sizeof(Real)) - cols % (16 / sizeof(Real)))
-      % (16 / sizeof(Real));
-  stride = cols + skip;
-  size = static_cast<size_t>(rows) * static_cast<size_t>(stride)
-      * sizeof(Real);
-
-  // allocate the memory and set the right dimensions and parameters
-  if (posix_memalign(&data, 32, size) == 0) {
-    MatrixBase<Real>::data_ = static_cast<Real *> (data);
-    MatrixBase<Real>::num_rows_ = rows;
-    MatrixBase<Real>::num_cols_ = cols;
-    MatrixBase<Real>::stride_  = (stride_type == kDefaultStride ? 
-      stride : cols);
-  } else {
-    throw std::bad_alloc();
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Resize(int rows,
-                          int cols,
-                          int resize_type,
-                          int stride_type) {
-  // the next block uses recursion to handle what we have to do if
-  // resize_type == kCopyData.
-  if (resize_type == kCopyData) {
-    if (this->data_ == NULL || rows == 0) {
-      // nothing to copy.
-      resize_type = kSetZero;  
-    } else if (rows == this->num_rows_ && cols == this->num_cols_) { 
-      // nothing to do.
-      return; 
-    } else {
-      // set tmp to a matrix of the desired size; if new matrix
-      // is bigger in some dimension, zero it.
-      int new_resize_type =
-          (rows > this->num_rows_ || cols > this->num_cols_) ? 
-              kSetZero : kUndefined;
-      Matrix<Real> tmp(rows, cols, new_resize_type);
-      int rows_min = std::min(rows, this->num_rows_),
-          cols_min = std::min(cols, this->num_cols_);
-      tmp.Range(0, rows_min, 0, cols_min).
-          CopyFromMat(this->Range(0, rows_min, 0, cols_min));
-      tmp.Swap(this);
-      // and now let tmp go out of scope, deleting what was in *this.
-      return;
-    }
-  }
-  // At this point, resize_type == kSetZero or kUndefined.
-
-  if (MatrixBase<Real>::data_ != NULL) {
-    if (rows == MatrixBase<Real>::num_rows_
-        && cols == MatrixBase<Real>::num_cols_) {
-      if (resize_type == kSetZero)
-        this->SetZero();
-      return;
-    }
-    else
-      Destroy();
-  }
-  Init(rows, cols, stride_type);
-  if (resize_type == kSetZero) MatrixBase<Real>::SetZero();
-}
-
-template<typename Real>
-void Matrix<Real>::Destroy() {
-  // we need to free the data block if it was defined
-  if (NULL != MatrixBase<Real>::data_) {
-    free( MatrixBase<Real>::data_);
-  }
-  MatrixBase<Real>::data_ = NULL;
-  MatrixBase<Real>::num_rows_ = MatrixBase<Real>::num_cols_
-      = MatrixBase<Real>::stride_ = 0;
-}
-
-template<typename Real>
-void VectorBase<Real>::SetZero() {
-  memset(data_, 0, dim_ * sizeof(Real));
-}
-
-template<typename Real>
-Status Matrix<Real>::Read(util::ReadableFile *fd) {
-  static const char *kSectionName = "MAT0";
-
-  // Read section name
-  int32_t section_size;
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(kSectionName));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&section_size));
-
-  int32_t num_rows, num_cols;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
-
-  // Resize the matrix according to the new size
-  Resize(num_rows, num_cols, kUndefined);
-
-  Vector<Real> row_read;
-  for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
-    SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
-    if (row_read.Dim() != this->NumCols()) {
-      return Status::Corruption(util::Format(
-          "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-          this->NumCols(),
-          row_read.Dim(),
-          fd->filename()));
-    }
-
-    row.CopyFromVec(row_read);
-  }
-
-  return Status::OK();
-}
-
-// Constructor... note that this is not const-safe as it would
-// be quite complicated to implement a "const SubMatrix" class that
-// would not allow its contents to be changed.
-template<typename Real>
-SubMatrix<Real>::SubMatrix(const MatrixBase<Real> &M,
-                           int ro,
-                           int r,
-                           int co,
-                           int c) {
-  if (r == 0 || c == 0) {
-    // we support the empty sub-matrix as a special case.
-    assert(c == 0 && r == 0);
-    this->data_ = NULL;
-    this->num_cols_ = 0;
-    this->num_rows_ = 0;
-    this->stride_ = 0;
-    return;
-  }
-  assert(ro < (M.num_rows_) && co < M.num_cols_ &&
-         r <= M.num_rows_ - ro && c <= M.num_cols_ - co);
-  // point to the begining of window
-  MatrixBase<Real>::num_rows_ = r;
-  MatrixBase<Real>::num_cols_ = c;
-  MatrixBase<Real>::stride_ = M.Stride();
-  MatrixBase<Real>::data_ = M.Data_workaround() +
-      static_cast<size_t>(co) +
-      static_cast<size_t>(ro) * static_cast<size_t>(M.Stride());
-}
-
-
-template<typename Real>
-SubMatrix<Real>::SubMatrix(Real *data,
-                           int num_rows,
-                           int num_cols,
-                           int stride):
-    MatrixBase<Real>(data, num_cols, num_rows, stride) { // caution: reversed order!
-  if (data == NULL) {
-    assert(num_rows * num_cols == 0);
-    this->num_rows_ = 0;
-    this->num_cols_ = 0;
-    this->stride_ = 0;
-  } else {
-    assert(this->stride_ >= this->num_cols_);
-  }
-}
-
-template<typename Real>
-void MatrixBase<Real>::Scale(Real scale) {
-  for (int r = 0; r < NumRows(); ++r) {
-    Row(r).Scale(scale);
-  }
-}
-
-template<typename Real>
-void MatrixBase<Real>::SetZero() {
-  if (num_cols_ == stride_)
-    memset(data_, 0, sizeof(Real)*num_rows_*num_cols_);
-  else
-    for (int row = 0; row < num_rows_; row++)
-      memset(data_ + row*stride_, 0, sizeof(Real)*num_cols_);
-}
-
-template<typename Real>
-void MatrixBase<Real>::SetRand() {
-  for (int row = 0; row < num_rows_; row++) {
-    for (int col = 0; col < num_cols_; col++) {
-      (*this)(row, col) = static_cast<Real>(rand()) / RAND_MAX;
-    }
-  }
-}
-
-template class Matrix<float>;
-template class Matrix<double>;
-template class MatrixBase<float>;
-template class MatrixBase<double>;
-template class SubMatrix<float>;
-template class SubMatrix<double>;
-template class Matrix<uint8_t>;
-template class MatrixBase<uint8_t>;
-
-
-// C <- A * B
-template<typename Real>
-void SimpleMatMat(
-    const MatrixBase<Real> &A,
-    const MatrixBase<Real> &B,
-    MatrixBase<Real> *C) {
-  assert(B.NumCols() == C->NumCols());
-  assert(A.NumRows() == C->NumRows());
-  assert(A.NumCols() == B.NumRows());
-
-  C->SetZero();
-  for (int row = 0; row < A.NumRows(); ++row) {
-    for (int col = 0; col < B.NumCols(); ++col) {
-      for (int k = 0; k < A.NumCols(); ++k) {
-        (*C)(row, col) += A(row, k) * B(k, col);
-      }
-    }
-  }
-}
-
-template 
-void SimpleMatMat<float>(
-    const MatrixBase<float> &A,
-    const MatrixBase<float> &B,
-    MatrixBase<float> *C);
-
-void MatMat(
-    const MatrixBase<float> &A,
-    const MatrixBase<float> &B,
-    MatrixBase<float> *C) {
-  assert(A.NumCols() == B.NumRows() &&
-         A.NumRows() == C->NumRows() &&
-         B.NumCols() == C->NumCols());
-
-  cblas_sgemm(
-      CblasRowMajor,
-      CblasNoTrans,
-      CblasNoTrans,
-      A.NumRows(),
-      B.NumCols(),
-      A.NumCols(),
-      1.0f,
-      A.Data(),
-      A.Stride(),
-      B.Data(),
-      B.Stride(),
-      0.0f,
-      C->Data(),
-      C->Stride());
-}
-
-namespace {
-
-// Find min and max value in Matrix. Assuming data in src was continuous
-// (src.Stride() == src.NumCols())
-void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
-  float min = std::numeric_limits<float>::max(),
-        max = std::numeric_limits<float>::min();
-
-  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
-    float val = src.Data()[i];
-    if (val > max) {
-      max = val;
-    }
-    if (val < min) {
-      min = val;
-    }
-  }
-
-  *pmin = min;
-  *pmax = max;
-}
-
-// Compute the 8-bit quantization parameters for matrix
-void ComputeQuantizationParams(const MatrixBase<float> &src,
-                               QuantizationParams *quant_params) {
-  // Find min and max value in matrix
-  float min, max;
-  FindMinMax(src, &min, &max);
-
-  double scale = (max - min) / 255.0;
-
-  // Find zero-point
-  double f_zero_point = -min / scale;
-  int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
-
-  quant_params->zero_point = zero_point;
-  quant_params->scale = static_cast<float>(scale);
-}
-
-}  // namespace 
-
-void Quantize(const MatrixBase<float> &src, Matrix<uint8_t> *dest,
-              QuantizationParams *params) {
-  assert(src.Stride() == src.NumCols());
-  assert(src.NumCols() != 0 && src.NumRows() != 0);
-
-  ComputeQuantizationParams(src, params);
-
-  // Allocate 8-bit dest matrix
-  if (dest->NumCols() != src.NumCols() || dest->NumRows() != src.NumRows()) {
-    dest->Resize(src.NumRows(), src.NumCols(), Matrix<uint8_t>::kUndefined);
-  }
-
-  // Quantize
-  const float *src_data = src.Data();
-  uint8_t *dest_data = dest->Data();
-  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
-    float val = src_data[i];
-    val = val / params->scale + params->zero_point;
-    val = std::max(0.0f, std::min(val, 255.0f));
-    dest_data[i] = static_cast<uint8_t>(roundf(val));
-  }
-}
-
-void MatMat_U8U8F32(
-    const MatrixBase<uint8_t> &A,
-    const QuantizationParams &quant_params_A,
-    const MatrixBase<uint8_t> &B,
-    const QuantizationParams &quant_params_B,
-    MatrixBase<float> *C) {
-  assert(A.NumCols() == B.NumRows() &&
-         A.NumRows() == C->NumRows() &&
-         B.NumCols() == C->NumCols());
-    assert(A.NumCols() * A.NumRows() > 1 &&
-           B.NumCols() * B.NumRows() > 1);
-  int32_t offset_A = -quant_params_A.zero_point;
-  int32_t offset_B = -quant_params_B.zero_point;
-
-  float offset_C = quant_params_A.scale * quant_params_B.scale;
-  EightBitIntGemm(true,
-                  true,
-                  true,
-                  A.NumRows(),
-                  B.NumCols(),
-                  A.NumCols(),
-                  A.Data(),
-                  offset_A,
-                  A.NumCols(),
-                  B.Data(),
-                  offset_B,
-                  B.NumCols(),
-                  C->Data(),
-                  offset_C,
-                  C->NumCols(),
-                  BitDepthSetting::A8B8);
-}
-
-
-}  // namespace pocketkaldi
+// 2017-01-27
+
+#include "matrix.h"
+
+#include <assert.h>
+#include <stdlib.h>
+#include <string.h>
+#include <math.h>
+#include <cblas.h>
+#include <limits>
+#include "util.h"
+
+#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
+
+namespace pocketkaldi {
+
+using gemmlowp::eight_bit_int_gemm::BitDepthSetting;
+using gemmlowp::eight_bit_int_gemm::EightBitIntGemm;
+
+template<typename Real>
+void MatrixBase<Real>::CopyFromMat(const MatrixBase<Real> &M, int trans) {
+  if (trans == kNoTrans) {
+    assert(num_rows_ == M.NumRows() && num_cols_ == M.NumCols());
+    for (int i = 0; i < num_rows_; i++) {
+      (*this).Row(i).CopyFromVec(M.Row(i));
+    }
+  } else {
+    assert(num_cols_ == M.NumRows() && num_rows_ == M.NumCols());
+    int this_stride = stride_, other_stride = M.Stride();
+    Real *this_data = data_;
+    const Real *other_data = M.Data();
+    for (int i = 0; i < num_rows_; i++) {
+      for (int j = 0; j < num_cols_; j++) {
+        this_data[i * this_stride + j] = other_data[j * other_stride + i];
+      }
+    }
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Swap(Matrix<Real> *other) {
+  std::swap(this->data_, other->data_);
+  std::swap(this->num_cols_, other->num_cols_);
+  std::swap(this->num_rows_, other->num_rows_);
+  std::swap(this->stride_, other->stride_);
+}
+
+template<typename Real>
+void MatrixBase<Real>::Transpose() {
+  assert(num_rows_ == num_cols_);
+  int M = num_rows_;
+  for (int i = 0;i < M;i++) {
+    for (int j = 0;j < i;j++) {
+      Real &a = (*this)(i, j), &b = (*this)(j, i);
+      std::swap(a, b);
+    }
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Init(
+    const int rows,
+    const int cols,
+    const int stride_type) {
+  if (rows * cols == 0) {
+    assert(rows == 0 && cols == 0);
+    this->num_rows_ = 0;
+    this->num_cols_ = 0;
+    this->stride_ = 0;
+    this->data_ = NULL;
+    return;
+  }
+  assert(rows > 0 && cols > 0);
+  int skip, stride;
+  size_t size;
+  void *data;  // aligned memory block
+
+  // compute the size of skip and real cols
+  skip = ((16 / sizeof(Real)) - cols % (16 / sizeof(Real)))
+      % (16 / sizeof(Real));
+  stride = cols + skip;
+  size = static_cast<size_t>(rows) * static_cast<size_t>(stride)
+      * sizeof(Real);
+
+  // allocate the memory and set the right dimensions and parameters
+  if (posix_memalign(&data, 32, size) == 0) {
+    MatrixBase<Real>::data_ = static_cast<Real *> (data);
+    MatrixBase<Real>::num_rows_ = rows;
+    MatrixBase<Real>::num_cols_ = cols;
+    MatrixBase<Real>::stride_  = (stride_type == kDefaultStride ? 
+      stride : cols);
+  } else {
+    throw std::bad_alloc();
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Resize(int rows,
+                          int cols,
+                          int resize_type,
+                          int stride_type) {
+  // the next block uses recursion to handle what we have to do if
+  // resize_type == kCopyData.
+  if (resize_type == kCopyData) {
+    if (this->data_ == NULL || rows == 0) {
+      // nothing to copy.
+      resize_type = kSetZero;  
+    } else if (rows == this->num_rows_ && cols == this->num_cols_) { 
+      // nothing to do.
+      return; 
+    } else {
+      // set tmp to a matrix of the desired size; if new matrix
+      // is bigger in some dimension, zero it.
+      int new_resize_type =
+          (rows > this->num_rows_ || cols > this->num_cols_) ? 
+              kSetZero : kUndefined;
+      Matrix<Real> tmp(rows, cols, new_resize_type);
+      int rows_min = std::min(rows, this->num_rows_),
+          cols_min = std::min(cols, this->num_cols_);
+      tmp.Range(0, rows_min, 0, cols_min).
+          CopyFromMat(this->Range(0, rows_min, 0, cols_min));
+      tmp.Swap(this);
+      // and now let tmp go out of scope, deleting what was in *this.
+      return;
+    }
+  }
+  // At this point, resize_type == kSetZero or kUndefined.
+
+  if (MatrixBase<Real>::data_ != NULL) {
+    if (rows == MatrixBase<Real>::num_rows_
+        && cols == MatrixBase<Real>::num_cols_) {
+      if (resize_type == kSetZero)
+        this->SetZero();
+      return;
+    }
+    else
+      Destroy();
+  }
+  Init(rows, cols, stride_type);
+  if (resize_type == kSetZero) MatrixBase<Real>::SetZero();
+}
+
+template<typename Real>
+void Matrix<Real>::Destroy() {
+  // we need to free the data block if it was defined
+  if (NULL != MatrixBase<Real>::data_) {
+    free( MatrixBase<Real>::data_);
+  }
+  MatrixBase<Real>::data_ = NULL;
+  MatrixBase<Real>::num_rows_ = MatrixBase<Real>::num_cols_
+      = MatrixBase<Real>::stride_ = 0;
+}
+
+template<typename Real>
+void VectorBase<Real>::SetZero() {
+  memset(data_, 0, dim_ * sizeof(Real));
+}
+
+template<typename Real>
+Status Matrix<Real>::Read(util::ReadableFile *fd) {
+  static const char *kSectionName = "MAT0";
+
+  // Read section name
+  int32_t section_size;
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(kSectionName));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&section_size));
+
+  int32_t num_rows, num_cols;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
+
+  // Resize the matrix according to the new size
+  Resize(num_rows, num_cols, kUndefined);
+
+  Vector<Real> row_read;
+  for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
+    SubVector<Real> row = this->Row(row_idx);
+    PK_CHECK_STATUS(row_read.Read(fd));
+    if (row_read.Dim() != this->NumCols()) {
+      return Status::Corruption(util::Format(
+          "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
+          this->NumCols(),
+          row_read.Dim(),
+          fd->filename()));
+    }
+
+    row.CopyFromVec(row_read);
+  }
+
+  return Status::OK();
+}
+
+// Constructor... note that this is not const-safe as it would
+// be quite complicated to implement a "const SubMatrix" class that
+// would not allow its contents to be changed.
+template<typename Real>
+SubMatrix<Real>::SubMatrix(const MatrixBase<Real> &M,
+                           int ro,
+                           int r,
+                           int co,
+                           int c) {
+  if (r == 0 || c == 0) {
+    // we support the empty sub-matrix as a special case.
+    assert(c == 0 && r == 0);
+    this->data_ = NULL;
+    this->num_cols_ = 0;
+    this->num_rows_ = 0;
+    this->stride_ = 0;
+    return;
+  }
+  assert(ro < (M.num_rows_) && co < M.num_cols_ &&
+         r <= M.num_rows_ - ro && c <= M.num_cols_ - co);
+  // point to the begining of window
+  MatrixBase<Real>::num_rows_ = r;
+  MatrixBase<Real>::num_cols_ = c;
+  MatrixBase<Real>::stride_ = M.Stride();
+  MatrixBase<Real>::data_ = M.Data_workaround() +
+      static_cast<size_t>(co) +
+      static_cast<size_t>(ro) * static_cast<size_t>(M.Stride());
+}
+
+
+template<typename Real>
+SubMatrix<Real>::SubMatrix(Real *data,
+                           int num_rows,
+                           int num_cols,
+                           int stride):
+    MatrixBase<Real>(data, num_cols, num_rows, stride) { // caution: reversed order!
+  if (data == NULL) {
+    assert(num_rows * num_cols == 0);
+    this->num_rows_ = 0;
+    this->num_cols_ = 0;
+    this->stride_ = 0;
+  } else {
+    assert(this->stride_ >= this->num_cols_);
+  }
+}
+
+template<typename Real>
+void MatrixBase<Real>::Scale(Real scale) {
+  for (int r = 0; r < NumRows(); ++r) {
+    Row(r).Scale(scale);
+  }
+}
+
+template<typename Real>
+void MatrixBase<Real>::SetZero() {
+  if (num_cols_ == stride_)
+    memset(data_, 0, sizeof(Real)*num_rows_*num_cols_);
+  else
+    for (int row = 0; row < num_rows_; row++)
+      memset(data_ + row*stride_, 0, sizeof(Real)*num_cols_);
+}
+
+template<typename Real>
+void MatrixBase<Real>::SetRand() {
+  for (int row = 0; row < num_rows_; row++) {
+    for (int col = 0; col < num_cols_; col++) {
+      (*this)(row, col) = static_cast<Real>(rand()) / RAND_MAX;
+    }
+  }
+}
+
+template class Matrix<float>;
+template class Matrix<double>;
+template class MatrixBase<float>;
+template class MatrixBase<double>;
+template class SubMatrix<float>;
+template class SubMatrix<double>;
+template class Matrix<uint8_t>;
+template class MatrixBase<uint8_t>;
+
+
+// C <- A * B
+template<typename Real>
+void SimpleMatMat(
+    const MatrixBase<Real> &A,
+    const MatrixBase<Real> &B,
+    MatrixBase<Real> *C) {
+  assert(B.NumCols() == C->NumCols());
+  assert(A.NumRows() == C->NumRows());
+  assert(A.NumCols() == B.NumRows());
+
+  C->SetZero();
+  for (int row = 0; row < A.NumRows(); ++row) {
+    for (int col = 0; col < B.NumCols(); ++col) {
+      for (int k = 0; k < A.NumCols(); ++k) {
+        (*C)(row, col) += A(row, k) * B(k, col);
+      }
+    }
+  }
+}
+
+template 
+void SimpleMatMat<float>(
+    const MatrixBase<float> &A,
+    const MatrixBase<float> &B,
+    MatrixBase<float> *C);
+
+void MatMat(
+    const MatrixBase<float> &A,
+    const MatrixBase<float> &B,
+    MatrixBase<float> *C) {
+  assert(A.NumCols() == B.NumRows() &&
+         A.NumRows() == C->NumRows() &&
+         B.NumCols() == C->NumCols());
+
+  cblas_sgemm(
+      CblasRowMajor,
+      CblasNoTrans,
+      CblasNoTrans,
+      A.NumRows(),
+      B.NumCols(),
+      A.NumCols(),
+      1.0f,
+      A.Data(),
+      A.Stride(),
+      B.Data(),
+      B.Stride(),
+      0.0f,
+      C->Data(),
+      C->Stride());
+}
+
+namespace {
+
+// Find min and max value in Matrix. Assuming data in src was continuous
+// (src.Stride() == src.NumCols())
+void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
+  float min = std::numeric_limits<float>::max(),
+        max = std::numeric_limits<float>::min();
+
+  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
+    float val = src.Data()[i];
+    if (val > max) {
+      max = val;
+    }
+    if (val < min) {
+      min = val;
+    }
+  }
+
+  *pmin = min;
+  *pmax = max;
+}
+
+// Compute the 8-bit quantization parameters for matrix
+void ComputeQuantizationParams(const MatrixBase<float> &src,
+                               QuantizationParams *quant_params) {
+  // Find min and max value in matrix
+  float min, max;
+  FindMinMax(src, &min, &max);
+
+  double scale = (max - min) / 255.0;
+
+  // Find zero-point
+  double f_zero_point = -min / scale;
+  int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
+
+  quant_params->zero_point = zero_point;
+  quant_params->scale = static_cast<float>(scale);
+}
+
+}  // namespace 
+
+void Quantize(const MatrixBase<float> &src, Matrix<uint8_t> *dest,
+              QuantizationParams *params) {
+  assert(src.Stride() == src.NumCols());
+  assert(src.NumCols() != 0 && src.NumRows() != 0);
+
+  ComputeQuantizationParams(src, params);
+
+  // Allocate 8-bit dest matrix
+  if (dest->NumCols() != src.NumCols() || dest->NumRows() != src.NumRows()) {
+    dest->Resize(src.NumRows(), src.NumCols(), Matrix<uint8_t>::kUndefined);
+  }
+
+  // Quantize
+  const float *src_data = src.Data();
+  uint8_t *dest_data = dest->Data();
+  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
+    float val = src_data[i];
+    val = val / params->scale + params->zero_point;
+    val = std::max(0.0f, std::min(val, 255.0f));
+    dest_data[i] = static_cast<uint8_t>(roundf(val));
+  }
+}
+
+void MatMat_U8U8F32(
+    const MatrixBase<uint8_t> &A,
+    const QuantizationParams &quant_params_A,
+    const MatrixBase<uint8_t> &B,
+    const QuantizationParams &quant_params_B,
+    MatrixBase<float> *C) {
+  assert(A.NumCols() == B.NumRows() &&
+         A.NumRows() == C->NumRows() &&
+         B.NumCols() == C->NumCols());
+    assert(A.NumCols() * A.NumRows() > 1 &&
+           B.NumCols() * B.NumRows() > 1);
+  int32_t offset_A = -quant_params_A.zero_point;
+  int32_t offset_B = -quant_params_B.zero_point;
+
+  float offset_C = quant_params_A.scale * quant_params_B.scale;
+  EightBitIntGemm(true,
+                  true,
+                  true,
+                  A.NumRows(),
+                  B.NumCols(),
+                  A.NumCols(),
+                  A.Data(),
+                  offset_A,
+                  A.NumCols(),
+                  B.Data(),
+                  offset_B,
+                  B.NumCols(),
+                  C->Data(),
+                  offset_C,
+                  C->NumCols(),
+                  BitDepthSetting::A8B8);
+}
+
+
+}  // namespace pocketkaldi
-- 
2.43.0


From 2a2c8e4c41c00a7b193479ed6e5bcb760e8b04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 10/38] fix: check the utterance before using it in
 ce_stt_end_of_stream

---
 src/ce_stt.cc | 753 +++++++++++++++++++++++++-------------------------
 1 file changed, 376 insertions(+), 377 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..5ad3631 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -1,377 +1,376 @@
-// Created at 2017-03-29
-
-#include "ce_stt.h"
-
-#include <stdlib.h>
-#include <math.h>
-#include <time.h>
-#include <string.h>
-#include <algorithm>
-#include <string>
-#include "am.h"
-#include "cmvn.h"
-#include "decoder.h"
-#include "fbank.h"
-#include "fst.h"
-#include "nnet.h"
-#include "symbol_table.h"
-#include "pcm_reader.h"
-#include "configuration.h"
-#include "util.h"
-
-using pocketkaldi::Decoder;
-using pocketkaldi::Fbank;
-using pocketkaldi::CMVN;
-using pocketkaldi::Status;
-using pocketkaldi::Configuration;
-using pocketkaldi::Vector;
-using pocketkaldi::VectorBase;
-using pocketkaldi::Matrix;
-using pocketkaldi::SubVector;
-using pocketkaldi::AcousticModel;
-using pocketkaldi::SymbolTable;
-using pocketkaldi::LmFst;
-using pocketkaldi::DeltaLmFst;
-using pocketkaldi::util::Format;
-using pocketkaldi::util::ReadableFile;
-using pocketkaldi::ReadPcmHeader;
-using pocketkaldi::WaveReader;
-
-
-typedef struct ce_stt_t {
-  fst::ConstFst<fst::StdArc> *fst;
-  pocketkaldi::LmFst *large_lm_fst;
-  pocketkaldi::DeltaLmFst *delta_lm_fst;
-  pocketkaldi::Vector<float> *original_lm;
-  pocketkaldi::AcousticModel *am;
-  pocketkaldi::Fbank *fbank;
-  pocketkaldi::SymbolTable *symbol_table;
-} ce_stt_t;
-
-// The internal version of an utterance. It stores the intermediate state in
-// decoding.
-typedef struct ce_utt_internal_t {
-  const ce_stt_t *recognizer;
-
-  WaveReader wave_reader;
-  Fbank::Instance fbank_inst;
-  AcousticModel::Instance am_inst;
-  std::unique_ptr<Decoder> decoder;
-} ce_utt_internal_t;
-
-namespace {
-
-// Buffer for last_error()
-char error_message[2048] = "";
-
-// Read symbol table
-Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
-  std::string filename = conf.GetPathOrElse("symbol_table", "");
-  if (filename == "") {
-    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
-        "Unable to find key 'symbol_table' in {}",
-        filename));
-  }
-  self->symbol_table = new SymbolTable();
-  PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
-
-  return Status::OK();
-}
-
-// Read and initialize delta lm fst
-Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
-  std::string large_lm_file = conf.GetPathOrElse("large_lm", "");
-
-  // If delta_lm_fst is not enables
-  if (large_lm_file == "") return Status::OK();
-
-  // Origianl LM in HCLG
-  std::string original_lm_file = conf.GetPathOrElse("original_lm", "");
-  if (original_lm_file == "") {
-    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
-        "Unable to find key 'original_lm' in {}",
-        original_lm_file));
-  }
-
-  pocketkaldi::util::ReadableFile fd_original_lm;
-  PK_CHECK_STATUS(fd_original_lm.Open(original_lm_file));
-  self->original_lm = new Vector<float>();
-  PK_CHECK_STATUS(self->original_lm->Read(&fd_original_lm));
-
-  // Large LM
-  pocketkaldi::util::ReadableFile fd_large_lm;
-  PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
-  self->large_lm_fst = new LmFst();
-  PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
-  self->large_lm_fst->InitBucket0();
-  
-  // Build DeltaLmFst
-  assert(self->symbol_table != nullptr);
-  self->delta_lm_fst = new DeltaLmFst(self->original_lm,
-                                      self->large_lm_fst,
-                                      self->symbol_table);
-
-  return Status::OK();
-}
-
-// Reads the HCLG fst
-Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
-  std::string filename = conf.GetPathOrElse("fst", "");
-  if (filename == "") {
-    return Status::Corruption(
-        Format("Unable to find key 'fst' in {}", filename));
-  }
-  fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
-  if (!fst) {
-    return Status::IOError(filename);
-  }
-  self->fst = fst;
-
-  return Status::OK();
-}
-
-// Checks if parameter utt is correct. On success return 0, on failed return
-// CE_STT_FAILED and copy error string into error_message
-int32_t CheckParamUtt(ce_utt_t *utt) {
-  if (utt == nullptr) {
-    pasco_strlcpy(error_message, "utt is NULL", sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-  if (utt->internal == nullptr) {
-    pasco_strlcpy(error_message, "utt->internal is NULL", sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-
-  const ce_stt_t *recognizer = utt->internal->recognizer;
-  if (recognizer == nullptr) {
-    pasco_strlcpy(error_message,
-                  "utt->internal->recognizer is NULL", 
-                  sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-
-  return 0;
-}
-
-// Get the hypothesis from best path in pattice and convert it into text format.
-// Then store into utt->hyp
-void StoreHypText(ce_utt_t *utt) {
-  PK_DEBUG("StoreHypText()");
-
-  // Decoding
-  const ce_stt_t *recognizer = utt->internal->recognizer;
-  Decoder *decoder = utt->internal->decoder.get();
-  Decoder::Hypothesis hyp = decoder->BestPath();
-
-  // Get final result
-  std::string text;
-  std::vector<int> words = hyp.words();
-  std::reverse(words.begin(), words.end());
-  if (!hyp.words().empty()) {
-    for (int word : words) {
-      // Append the word into hyp
-      text += recognizer->symbol_table->Get(word);
-      text += ' ';
-    }
-
-    // Copy hyp to utt->hyp
-    delete[] utt->hyp;
-    utt->hyp = new char[text.size()];
-
-    // pasco_strlcpy will fill the last space as '\0' automatically
-    pasco_strlcpy(utt->hyp, text.data(), text.size());
-    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
-  } else {
-    delete[] utt->hyp;
-    utt->hyp = new char[1];
-    *(utt->hyp) = '\0';
-  }
-}
-
-}  // namespace
-
-ce_stt_t *ce_stt_init(const char *config_file) {
-  ce_stt_t *recognizer = new ce_stt_t;
-  memset(recognizer, '\0', sizeof(ce_stt_t));
-
-  Status status;
-
-  Configuration conf;
-  status = conf.Read(config_file);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // FST
-  status = ReadHclgFst(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // AM
-  recognizer->am = new AcousticModel();
-  status = recognizer->am->Read(conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // SYMBOL TABLE
-  status = ReadSymbolTable(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // DelteLmFst (if available)
-  status = ReadDeltaLmFst(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // Initialize fbank feature extractor
-  recognizer->fbank = new Fbank();
-
-  return recognizer;
-
-  if (false) {
-pasco_init_failed:
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_stt_destroy(recognizer);
-    return nullptr;
-  }
-}
-
-void ce_stt_destroy(ce_stt_t *recognizer) {
-  delete recognizer->fst;
-  recognizer->fst = nullptr;
-
-  delete recognizer->large_lm_fst;
-  recognizer->large_lm_fst = nullptr;
-
-  delete recognizer->delta_lm_fst;
-  recognizer->delta_lm_fst = nullptr;
-
-  delete recognizer->original_lm;
-  recognizer->original_lm = nullptr;
-
-  delete recognizer->am;
-  recognizer->am = NULL;
-
-  delete recognizer->symbol_table;
-  recognizer->symbol_table = nullptr;
-
-  delete recognizer->fbank;
-  recognizer->fbank = NULL;
-}
-
-ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-  ce_utt_t *c_utt = new ce_utt_t;
-  ce_utt_internal_t *utt = new ce_utt_internal_t;
-
-  utt->decoder = std::unique_ptr<Decoder>(new Decoder(
-      recognizer->fst,
-      recognizer->am->TransitionPdfIdMap(),
-      0.1,
-      recognizer->delta_lm_fst));
-  utt->decoder->Initialize();
-
-  c_utt->hyp = new char[1];
-  *(c_utt->hyp) = '\0';
-  c_utt->loglikelihood_per_frame = 0.0f;
-  c_utt->internal = utt;
-
-  // Set wave format in wave reader
-  Status status = utt->wave_reader.SetFormat(*format);
-  if (!status.ok()) {
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_utt_destroy(c_utt);
-    return nullptr;
-  }
-
-  utt->recognizer = recognizer;
-
-  return c_utt;
-}
-
-void ce_utt_destroy(ce_utt_t *c_utt) {
-  delete[] c_utt->hyp;
-  c_utt->hyp = nullptr;
-
-  c_utt->loglikelihood_per_frame = 0.0f;
-
-  delete c_utt->internal;
-  delete c_utt;
-}
-
-int32_t ce_stt_process(ce_utt_t *c_utt, const char *data, int32_t size) {
-  Vector<float> samples;
-  Matrix<float> feats;
-  Matrix<float> log_prob;
-
-  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
-    return CE_STT_FAILED;
-  }
-  const ce_stt_t *recognizer = c_utt->internal->recognizer;
-  ce_utt_internal_t *utt = c_utt->internal;
-
-  // Bytes to samples
-  Status status = utt->wave_reader.Process(data, size, &samples);
-  PK_DEBUG(Format("{} samples read", samples.Dim()));
-  if (!status.ok()) goto pasco_process_failed;
-  if (samples.Dim() == 0) return 0;
-
-  // Samples to fbank features
-  recognizer->fbank->Process(&utt->fbank_inst, samples, &feats);
-  PK_DEBUG(Format("get {} frames of fbank feature", feats.NumRows()));
-
-  // Compute log_prob by AM
-  for (int frame_idx = 0; frame_idx < feats.NumRows(); ++frame_idx) {
-    SubVector<float> frame_feats = feats.Row(frame_idx);
-    recognizer->am->Process(&utt->am_inst, frame_feats, &log_prob);
-    if (log_prob.NumRows() != 0) {
-      PK_DEBUG(Format("get {} frames of log_prob", log_prob.NumRows()));
-      for (int r = 0; r < log_prob.NumRows(); ++r) {
-        utt->decoder->Process(log_prob.Row(r));
-
-        // Update hypothesis
-        if (utt->decoder->NumFramesDecoded() % 20 == 0) {
-          StoreHypText(c_utt);
-        }
-      }
-    }
-  }
-
-  return samples.Dim();
-
-  if (false) {
-pasco_process_failed:
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-}
-
-void ce_stt_end_of_stream(ce_utt_t *c_utt) {
-  PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
-
-  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
-    return;
-  }
-  const ce_stt_t *recognizer = c_utt->internal->recognizer;
-
-  // Process remained frames in AM
-  Matrix<float> log_prob;
-  recognizer->am->EndOfStream(&utt->am_inst, &log_prob);
-  if (log_prob.NumRows() != 0) {
-    for (int r = 0; r < log_prob.NumRows(); ++r) {
-      utt->decoder->Process(log_prob.Row(r));
-    }
-  }
-  utt->decoder->EndOfStream();
-
-  StoreHypText(c_utt);
-}
-
-ce_wave_format_t *ce_read_pcm_header(FILE *fp, ce_wave_format_t *format) {
-  ReadableFile fd(fp);
-  Status status = ReadPcmHeader(&fd, format);
-  if (!status.ok()) {
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    return nullptr;
-  }
-
-  return format;
-}
-
-const char *ce_stt_last_error() {
-  return error_message;
-}
+// Created at 2017-03-29
+
+#include "ce_stt.h"
+
+#include <stdlib.h>
+#include <math.h>
+#include <time.h>
+#include <string.h>
+#include <algorithm>
+#include <string>
+#include "am.h"
+#include "cmvn.h"
+#include "decoder.h"
+#include "fbank.h"
+#include "fst.h"
+#include "nnet.h"
+#include "symbol_table.h"
+#include "pcm_reader.h"
+#include "configuration.h"
+#include "util.h"
+
+using pocketkaldi::Decoder;
+using pocketkaldi::Fbank;
+using pocketkaldi::CMVN;
+using pocketkaldi::Status;
+using pocketkaldi::Configuration;
+using pocketkaldi::Vector;
+using pocketkaldi::VectorBase;
+using pocketkaldi::Matrix;
+using pocketkaldi::SubVector;
+using pocketkaldi::AcousticModel;
+using pocketkaldi::SymbolTable;
+using pocketkaldi::LmFst;
+using pocketkaldi::DeltaLmFst;
+using pocketkaldi::util::Format;
+using pocketkaldi::util::ReadableFile;
+using pocketkaldi::ReadPcmHeader;
+using pocketkaldi::WaveReader;
+
+
+typedef struct ce_stt_t {
+  fst::ConstFst<fst::StdArc> *fst;
+  pocketkaldi::LmFst *large_lm_fst;
+  pocketkaldi::DeltaLmFst *delta_lm_fst;
+  pocketkaldi::Vector<float> *original_lm;
+  pocketkaldi::AcousticModel *am;
+  pocketkaldi::Fbank *fbank;
+  pocketkaldi::SymbolTable *symbol_table;
+} ce_stt_t;
+
+// The internal version of an utterance. It stores the intermediate state in
+// decoding.
+typedef struct ce_utt_internal_t {
+  const ce_stt_t *recognizer;
+
+  WaveReader wave_reader;
+  Fbank::Instance fbank_inst;
+  AcousticModel::Instance am_inst;
+  std::unique_ptr<Decoder> decoder;
+} ce_utt_internal_t;
+
+namespace {
+
+// Buffer for last_error()
+char error_message[2048] = "";
+
+// Read symbol table
+Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
+  std::string filename = conf.GetPathOrElse("symbol_table", "");
+  if (filename == "") {
+    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
+        "Unable to find key 'symbol_table' in {}",
+        filename));
+  }
+  self->symbol_table = new SymbolTable();
+  PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
+
+  return Status::OK();
+}
+
+// Read and initialize delta lm fst
+Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
+  std::string large_lm_file = conf.GetPathOrElse("large_lm", "");
+
+  // If delta_lm_fst is not enables
+  if (large_lm_file == "") return Status::OK();
+
+  // Origianl LM in HCLG
+  std::string original_lm_file = conf.GetPathOrElse("original_lm", "");
+  if (original_lm_file == "") {
+    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
+        "Unable to find key 'original_lm' in {}",
+        original_lm_file));
+  }
+
+  pocketkaldi::util::ReadableFile fd_original_lm;
+  PK_CHECK_STATUS(fd_original_lm.Open(original_lm_file));
+  self->original_lm = new Vector<float>();
+  PK_CHECK_STATUS(self->original_lm->Read(&fd_original_lm));
+
+  // Large LM
+  pocketkaldi::util::ReadableFile fd_large_lm;
+  PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
+  self->large_lm_fst = new LmFst();
+  PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
+  self->large_lm_fst->InitBucket0();
+  
+  // Build DeltaLmFst
+  assert(self->symbol_table != nullptr);
+  self->delta_lm_fst = new DeltaLmFst(self->original_lm,
+                                      self->large_lm_fst,
+                                      self->symbol_table);
+
+  return Status::OK();
+}
+
+// Reads the HCLG fst
+Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
+  std::string filename = conf.GetPathOrElse("fst", "");
+  if (filename == "") {
+    return Status::Corruption(
+        Format("Unable to find key 'fst' in {}", filename));
+  }
+  fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
+  if (!fst) {
+    return Status::IOError(filename);
+  }
+  self->fst = fst;
+
+  return Status::OK();
+}
+
+// Checks if parameter utt is correct. On success return 0, on failed return
+// CE_STT_FAILED and copy error string into error_message
+int32_t CheckParamUtt(ce_utt_t *utt) {
+  if (utt == nullptr) {
+    pasco_strlcpy(error_message, "utt is NULL", sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+  if (utt->internal == nullptr) {
+    pasco_strlcpy(error_message, "utt->internal is NULL", sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+
+  const ce_stt_t *recognizer = utt->internal->recognizer;
+  if (recognizer == nullptr) {
+    pasco_strlcpy(error_message,
+                  "utt->internal->recognizer is NULL", 
+                  sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+
+  return 0;
+}
+
+// Get the hypothesis from best path in pattice and convert it into text format.
+// Then store into utt->hyp
+void StoreHypText(ce_utt_t *utt) {
+  PK_DEBUG("StoreHypText()");
+
+  // Decoding
+  const ce_stt_t *recognizer = utt->internal->recognizer;
+  Decoder *decoder = utt->internal->decoder.get();
+  Decoder::Hypothesis hyp = decoder->BestPath();
+
+  // Get final result
+  std::string text;
+  std::vector<int> words = hyp.words();
+  std::reverse(words.begin(), words.end());
+  if (!hyp.words().empty()) {
+    for (int word : words) {
+      // Append the word into hyp
+      text += recognizer->symbol_table->Get(word);
+      text += ' ';
+    }
+
+    // Copy hyp to utt->hyp
+    delete[] utt->hyp;
+    utt->hyp = new char[text.size()];
+
+    // pasco_strlcpy will fill the last space as '\0' automatically
+    pasco_strlcpy(utt->hyp, text.data(), text.size());
+    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
+  } else {
+    delete[] utt->hyp;
+    utt->hyp = new char[1];
+    *(utt->hyp) = '\0';
+  }
+}
+
+}  // namespace
+
+ce_stt_t *ce_stt_init(const char *config_file) {
+  ce_stt_t *recognizer = new ce_stt_t;
+  memset(recognizer, '\0', sizeof(ce_stt_t));
+
+  Status status;
+
+  Configuration conf;
+  status = conf.Read(config_file);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // FST
+  status = ReadHclgFst(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // AM
+  recognizer->am = new AcousticModel();
+  status = recognizer->am->Read(conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // SYMBOL TABLE
+  status = ReadSymbolTable(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // DelteLmFst (if available)
+  status = ReadDeltaLmFst(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // Initialize fbank feature extractor
+  recognizer->fbank = new Fbank();
+
+  return recognizer;
+
+  if (false) {
+pasco_init_failed:
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    ce_stt_destroy(recognizer);
+    return nullptr;
+  }
+}
+
+void ce_stt_destroy(ce_stt_t *recognizer) {
+  delete recognizer->fst;
+  recognizer->fst = nullptr;
+
+  delete recognizer->large_lm_fst;
+  recognizer->large_lm_fst = nullptr;
+
+  delete recognizer->delta_lm_fst;
+  recognizer->delta_lm_fst = nullptr;
+
+  delete recognizer->original_lm;
+  recognizer->original_lm = nullptr;
+
+  delete recognizer->am;
+  recognizer->am = NULL;
+
+  delete recognizer->symbol_table;
+  recognizer->symbol_table = nullptr;
+
+  delete recognizer->fbank;
+  recognizer->fbank = NULL;
+}
+
+ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
+  ce_utt_t *c_utt = new ce_utt_t;
+  ce_utt_internal_t *utt = new ce_utt_internal_t;
+
+  utt->decoder = std::unique_ptr<Decoder>(new Decoder(
+      recognizer->fst,
+      recognizer->am->TransitionPdfIdMap(),
+      0.1,
+      recognizer->delta_lm_fst));
+  utt->decoder->Initialize();
+
+  c_utt->hyp = new char[1];
+  *(c_utt->hyp) = '\0';
+  c_utt->loglikelihood_per_frame = 0.0f;
+  c_utt->internal = utt;
+
+  // Set wave format in wave reader
+  Status status = utt->wave_reader.SetFormat(*format);
+  if (!status.ok()) {
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    ce_utt_destroy(c_utt);
+    return nullptr;
+  }
+
+  utt->recognizer = recognizer;
+
+  return c_utt;
+}
+
+void ce_utt_destroy(ce_utt_t *c_utt) {
+  delete[] c_utt->hyp;
+  c_utt->hyp = nullptr;
+
+  c_utt->loglikelihood_per_frame = 0.0f;
+
+  delete c_utt->internal;
+  delete c_utt;
+}
+
+int32_t ce_stt_process(ce_utt_t *c_utt, const char *data, int32_t size) {
+  Vector<float> samples;
+  Matrix<float> feats;
+  Matrix<float> log_prob;
+
+  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
+    return CE_STT_FAILED;
+  }
+  const ce_stt_t *recognizer = c_utt->internal->recognizer;
+  ce_utt_internal_t *utt = c_utt->internal;
+
+  // Bytes to samples
+  Status status = utt->wave_reader.Process(data, size, &samples);
+  PK_DEBUG(Format("{} samples read", samples.Dim()));
+  if (!status.ok()) goto pasco_process_failed;
+  if (samples.Dim() == 0) return 0;
+
+  // Samples to fbank features
+  recognizer->fbank->Process(&utt->fbank_inst, samples, &feats);
+  PK_DEBUG(Format("get {} frames of fbank feature", feats.NumRows()));
+
+  // Compute log_prob by AM
+  for (int frame_idx = 0; frame_idx < feats.NumRows(); ++frame_idx) {
+    SubVector<float> frame_feats = feats.Row(frame_idx);
+    recognizer->am->Process(&utt->am_inst, frame_feats, &log_prob);
+    if (log_prob.NumRows() != 0) {
+      PK_DEBUG(Format("get {} frames of log_prob", log_prob.NumRows()));
+      for (int r = 0; r < log_prob.NumRows(); ++r) {
+        utt->decoder->Process(log_prob.Row(r));
+
+        // Update hypothesis
+        if (utt->decoder->NumFramesDecoded() % 20 == 0) {
+          StoreHypText(c_utt);
+        }
+      }
+    }
+  }
+
+  return samples.Dim();
+
+  if (false) {
+pasco_process_failed:
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+}
+
+void ce_stt_end_of_stream(ce_utt_t *c_utt) {
+  PK_DEBUG("pasco_end_of_stream()");
+  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
+    return;
+  }
+  ce_utt_internal_t *utt = c_utt->internal;
+  const ce_stt_t *recognizer = c_utt->internal->recognizer;
+
+  // Process remained frames in AM
+  Matrix<float> log_prob;
+  recognizer->am->EndOfStream(&utt->am_inst, &log_prob);
+  if (log_prob.NumRows() != 0) {
+    for (int r = 0; r < log_prob.NumRows(); ++r) {
+      utt->decoder->Process(log_prob.Row(r));
+    }
+  }
+  utt->decoder->EndOfStream();
+
+  StoreHypText(c_utt);
+}
+
+ce_wave_format_t *ce_read_pcm_header(FILE *fp, ce_wave_format_t *format) {
+  ReadableFile fd(fp);
+  Status status = ReadPcmHeader(&fd, format);
+  if (!status.ok()) {
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    return nullptr;
+  }
+
+  return format;
+}
+
+const char *ce_stt_last_error() {
+  return error_message;
+}
-- 
2.43.0


From ccca182078247689550688596b6a59bc1f662e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 11/38] fix: ce_stt_destroy must release the recognizer itself

---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 5ad3631..ae9095b 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -251,6 +251,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From 9bc54ce52771924254dee6081898487b0da22ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 12/38] fix: SymbolTable::Read must refuse negative symbol ids

A negative id was used as an index into the word list.
---
 src/symbol_table.cc | 139 +++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 67 deletions(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..31fbaf2 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -1,67 +1,72 @@
-// Create at 2017-03-27
-
-#include "symbol_table.h"
-
-#include <assert.h>
-#include <stdlib.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-char kBosSymbol[] = "<s>";
-char kEosSymbol[] = "</s>";
-
-SymbolTable::SymbolTable(): bos_id_(0), eos_id_(0) {}
-
-Status SymbolTable::Read(const std::string &filename) {
-  util::ReadableFile fd;
-  PK_CHECK_STATUS(fd.Open(filename));
-
-  Status status = Status::OK();
-  std::string line;
-  words_.reserve(65536);
-  while (fd.ReadLine(&line, &status) && status.ok()) {
-    std::vector<std::string> fields = util::Split(line, " ");
-    if (fields.size() != 2) {
-      return Status::Corruption(util::Format(
-          "2 column expected but {} found: {}",
-          fields.size(),
-          line));
-    }
-
-    std::string word = fields[0];
-    long word_id = 0;
-    PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    
-    word_ids_[word] = word_id;
-    if (word_id >= words_.size()) words_.resize(word_id + 1);
-    words_[word_id] = word;
-  }
-  PK_CHECK_STATUS(status);
-
-  // Find BOS and EOS ids
-  if (word_ids_.find(kBosSymbol) == word_ids_.end() ||
-      word_ids_.find(kEosSymbol) == word_ids_.end()) {
-    return Status::Corruption("symbol_table: unable to find BOS/EOS symbol");
-  }
-  bos_id_ = word_ids_[kBosSymbol];
-  eos_id_ = word_ids_[kEosSymbol];
-
-  return Status::OK();
-}
-
-const char *SymbolTable::Get(int symbol_id) const {
-  assert(symbol_id < words_.size() && "symbol_id out of boundary");
-  return words_[symbol_id].c_str();
-}
-
-int SymbolTable::GetId(const std::string &word) const {
-  std::unordered_map<std::string, int>::const_iterator it = word_ids_.find(word);
-  if (it == word_ids_.end()) {
-    return kNotExist;
-  } else {
-    return it->second;
-  }
-}
-
-}  // namespace pocketkaldi
+// Create at 2017-03-27
+
+#include "symbol_table.h"
+
+#include <assert.h>
+#include <stdlib.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+char kBosSymbol[] = "<s>";
+char kEosSymbol[] = "</s>";
+
+SymbolTable::SymbolTable(): bos_id_(0), eos_id_(0) {}
+
+Status SymbolTable::Read(const std::string &filename) {
+  util::ReadableFile fd;
+  PK_CHECK_STATUS(fd.Open(filename));
+
+  Status status = Status::OK();
+  std::string line;
+  words_.reserve(65536);
+  while (fd.ReadLine(&line, &status) && status.ok()) {
+    std::vector<std::string> fields = util::Split(line, " ");
+    if (fields.size() != 2) {
+      return Status::Corruption(util::Format(
+          "2 column expected but {} found: {}",
+          fields.size(),
+          line));
+    }
+
+    std::string word = fields[0];
+    long word_id = 0;
+    PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
+    if (word_id < 0) {
+      return Status::Corruption(util::Format(
+          "unexpected symbol id: {}",
+          line));
+    }
+    
+    word_ids_[word] = word_id;
+    if (word_id >= words_.size()) words_.resize(word_id + 1);
+    words_[word_id] = word;
+  }
+  PK_CHECK_STATUS(status);
+
+  // Find BOS and EOS ids
+  if (word_ids_.find(kBosSymbol) == word_ids_.end() ||
+      word_ids_.find(kEosSymbol) == word_ids_.end()) {
+    return Status::Corruption("symbol_table: unable to find BOS/EOS symbol");
+  }
+  bos_id_ = word_ids_[kBosSymbol];
+  eos_id_ = word_ids_[kEosSymbol];
+
+  return Status::OK();
+}
+
+const char *SymbolTable::Get(int symbol_id) const {
+  assert(symbol_id < words_.size() && "symbol_id out of boundary");
+  return words_[symbol_id].c_str();
+}
+
+int SymbolTable::GetId(const std::string &word) const {
+  std::unordered_map<std::string, int>::const_iterator it = word_ids_.find(word);
+  if (it == word_ids_.end()) {
+    return kNotExist;
+  } else {
+    return it->second;
+  }
+}
+
+}  // namespace pocketkaldi
-- 
2.43.0


From eb095bbec82fa4a52e5bb65a8a3e05fa87a51227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 13/38] fix: ReadableFile::ReadLine must report EOF once and
 return whole lines

When the last line has no newline, the call after it returned an IOError instead
of a successful end of file, so symbol tables and scp lists without a final
newline were refused. Lines longer than the buffer were split into several.
---
 src/util.cc | 319 +++++++++++++++++++++++----------------------
 src/util.h  | 363 ++++++++++++++++++++++++++--------------------------
 2 files changed, 346 insertions(+), 336 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..2b3514d 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -1,156 +1,163 @@
-// Created at 2016-11-24
-
-#include "util.h"
-
-#include <assert.h>
-#include <ctype.h>
-#include <stdarg.h>
-#include <string.h>
-#include <stdio.h>
-#include <stdint.h>
-#include <stdlib.h>
-#include <array>
-#include <algorithm>
-
-namespace pocketkaldi {
-namespace util {
-
-std::string Trim(const std::string &str) {
-  std::string::const_iterator begin = str.cbegin();
-  std::string::const_iterator end = str.cend() - 1;
-
-  while (begin < str.cend() && isspace(*begin)) ++begin;
-  while (end > begin && isspace(*end)) --end;
-  return std::string(begin, end + 1);
-}
-
-std::vector<std::string> Split(
-    const std::string &str,
-    const std::string &delim) {
-  std::vector<std::string> fields;
-  int start = 0;
-  int pos = 0;
-  while ((pos = str.find(delim, start)) != std::string::npos) {
-    fields.emplace_back(str.cbegin() + start, str.cbegin() + pos);
-    start = pos + delim.size();
-  }
-  if (str.cbegin() + start < str.cend()) {
-    fields.emplace_back(str.cbegin() + start, str.cend());
-  }
-
-  return fields;
-}
-
-std::string Tolower(const std::string &str) {
-  std::string lower(str.begin(), str.end());
-  std::transform(lower.begin(), lower.end(), lower.begin(), tolower);
-  return lower;
-}
-
-
-Status StringToLong(const std::string &str, long *val) {
-  std::string trim_str = Trim(str);
-  char *end = nullptr;
-  *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
-    return Status::Corruption(Format("unexpected number string: {}", trim_str));
-  }
-  
-  return Status::OK();
-}
-
-
-ReadableFile::ReadableFile(): fd_(nullptr), file_size_(0), owned_(true) {
-}
-
-ReadableFile::ReadableFile(FILE *fd):
-    fd_(fd), file_size_(0), owned_(false) {
-}
-
-ReadableFile::~ReadableFile() {
-  if (fd_ != nullptr && owned_) fclose(fd_);
-  fd_ = NULL;
-}
-
-Status ReadableFile::Open(const std::string &filename) {
-  filename_ = filename;
-  fd_ = fopen(filename.c_str(), "rb");
-  if (fd_ == NULL) {
-    return Status::IOError(util::Format("Unable to open {}", filename));
-  }
-
-  // Get file size
-  fseek(fd_, 0, SEEK_END);
-  file_size_ = ftell(fd_);
-  fseek(fd_, 0, SEEK_SET);
-
-  return Status::OK();
-}
-
-bool ReadableFile::ReadLine(std::string *line, Status *status) {
-  // Failed if it already reached EOF
-  if (feof(fd_)) {
-    *status = Status::IOError(
-        util::Format("EOF already reached: {}", filename_));
-    return false;
-  }
-
-  // Readline
-  std::array<char, 4096> chunk;
-  char *s = fgets(chunk.data(), chunk.size(), fd_);
-  if (s == NULL) {
-    if (feof(fd_)) {
-      // First time that reached EOF
-      return false;
-    } else {
-      *status = Status::IOError(filename_);
-      return false;
-    }
-  }
-
-  // Trim the tailing '\r' or '\n'
-  *line = s;
-  while (line->empty() == false &&
-         (line->back() == '\r' || line->back() == '\n')) {
-    line->pop_back();
-  }
-  return true;
-}
-
-Status ReadableFile::Read(void *ptr, int size) {
-  if (1 != fread(ptr, size, 1, fd_)) {
-    return Status::IOError(util::Format("failed to read: {}", filename_));
-  } else {
-    return Status::OK();
-  }
-}
-
-Status ReadableFile::ReadAndVerifyString(const std::string &expected) {
-  std::vector<char> name_buffer(expected.size() + 1);
-
-  Status status = Read(name_buffer.data(), expected.size());
-  if (!status.ok()) return status;
-  name_buffer.back() = '\0';
-  if (expected != name_buffer.data()) {
-    return Status::Corruption(util::Format(
-       "ReadAndVerifyString: '{}' expected but '{}' found in {}",
-       expected,
-       name_buffer.data(),
-       filename_));
-  }
-
-  return Status::OK();
-}
-
-bool ReadableFile::Eof() const {
-  return feof(fd_) != 0;
-}
-
-void ReadableFile::Close() {
-  assert(owned_ && "unable to call Close() in borrowed mode");
-  if (fd_ != nullptr) fclose(fd_);
-  fd_ = nullptr;
-}
-
-}  // namespace util
-}  // namespace pocketkaldi
+// Created at 2016-11-24
+
+#include "util.h"
+
+#include <assert.h>
+#include <ctype.h>
+#include <stdarg.h>
+#include <string.h>
+#include <stdio.h>
+#include <stdint.h>
+#include <stdlib.h>
+#include <array>
+#include <algorithm>
+
+namespace pocketkaldi {
+namespace util {
+
+std::string Trim(const std::string &str) {
+  std::string::const_iterator begin = str.cbegin();
+  std::string::const_iterator end = str.cend() - 1;
+
+  while (begin < str.cend() && isspace(*begin)) ++begin;
+  while (end > begin && isspace(*end)) --end;
+  return std::string(begin, end + 1);
+}
+
+std::vector<std::string> Split(
+    const std::string &str,
+    const std::string &delim) {
+  std::vector<std::string> fields;
+  int start = 0;
+  int pos = 0;
+  while ((pos = str.find(delim, start)) != std::string::npos) {
+    fields.emplace_back(str.cbegin() + start, str.cbegin() + pos);
+    start = pos + delim.size();
+  }
+  if (str.cbegin() + start < str.cend()) {
+    fields.emplace_back(str.cbegin() + start, str.cend());
+  }
+
+  return fields;
+}
+
+std::string Tolower(const std::string &str) {
+  std::string lower(str.begin(), str.end());
+  std::transform(lower.begin(), lower.end(), lower.begin(), tolower);
+  return lower;
+}
+
+
+Status StringToLong(const std::string &str, long *val) {
+  std::string trim_str = Trim(str);
+  char *end = nullptr;
+  *val = strtol(trim_str.c_str(), &end, 0);
+  if (*end != '\0') {
+    return Status::Corruption(Format("unexpected number string: {}", trim_str));
+  }
+  
+  return Status::OK();
+}
+
+
+ReadableFile::ReadableFile():
+    fd_(nullptr), file_size_(0), owned_(true), eof_reported_(false) {
+}
+
+ReadableFile::ReadableFile(FILE *fd):
+    fd_(fd), file_size_(0), owned_(false), eof_reported_(false) {
+}
+
+ReadableFile::~ReadableFile() {
+  if (fd_ != nullptr && owned_) fclose(fd_);
+  fd_ = NULL;
+}
+
+Status ReadableFile::Open(const std::string &filename) {
+  filename_ = filename;
+  eof_reported_ = false;
+  fd_ = fopen(filename.c_str(), "rb");
+  if (fd_ == NULL) {
+    return Status::IOError(util::Format("Unable to open {}", filename));
+  }
+
+  // Get file size
+  fseek(fd_, 0, SEEK_END);
+  file_size_ = ftell(fd_);
+  fseek(fd_, 0, SEEK_SET);
+
+  return Status::OK();
+}
+
+bool ReadableFile::ReadLine(std::string *line, Status *status) {
+  // Failed if EOF was already reported
+  if (eof_reported_) {
+    *status = Status::IOError(
+        util::Format("EOF already reached: {}", filename_));
+    return false;
+  }
+
+  // Readline. A line longer than chunk is read piece by piece
+  std::array<char, 4096> chunk;
+  std::string text;
+  char *s = NULL;
+  while ((s = fgets(chunk.data(), chunk.size(), fd_)) != NULL) {
+    text += s;
+    if (text.empty() == false && text.back() == '\n') break;
+  }
+  if (s == NULL && ferror(fd_)) {
+    *status = Status::IOError(filename_);
+    return false;
+  }
+  if (text.empty()) {
+    // First time that reached EOF
+    eof_reported_ = true;
+    return false;
+  }
+
+  // Trim the tailing '\r' or '\n'
+  *line = text;
+  while (line->empty() == false &&
+         (line->back() == '\r' || line->back() == '\n')) {
+    line->pop_back();
+  }
+  return true;
+}
+
+Status ReadableFile::Read(void *ptr, int size) {
+  if (1 != fread(ptr, size, 1, fd_)) {
+    return Status::IOError(util::Format("failed to read: {}", filename_));
+  } else {
+    return Status::OK();
+  }
+}
+
+Status ReadableFile::ReadAndVerifyString(const std::string &expected) {
+  std::vector<char> name_buffer(expected.size() + 1);
+
+  Status status = Read(name_buffer.data(), expected.size());
+  if (!status.ok()) return status;
+  name_buffer.back() = '\0';
+  if (expected != name_buffer.data()) {
+    return Status::Corruption(util::Format(
+       "ReadAndVerifyString: '{}' expected but '{}' found in {}",
+       expected,
+       name_buffer.data(),
+       filename_));
+  }
+
+  return Status::OK();
+}
+
+bool ReadableFile::Eof() const {
+  return feof(fd_) != 0;
+}
+
+void ReadableFile::Close() {
+  assert(owned_ && "unable to call Close() in borrowed mode");
+  if (fd_ != nullptr) fclose(fd_);
+  fd_ = nullptr;
+}
+
+}  // namespace util
+}  // namespace pocketkaldi
diff --git a/src/util.h b/src/util.h
index 3d23407..2fe64df 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,180 +1,183 @@
-// Created at 2016-11-24
-
-#ifndef POCKETKALDI_UTIL_H_
-#define POCKETKALDI_UTIL_H_
-
-#include <assert.h>
-#include <stdbool.h>
-#include <stdlib.h>
-#include <stdio.h>
-#include <string>
-#include <sstream>
-#include <iostream>
-#include <utility>
-#include <vector>
-#include "ce_stt.h"
-#include "status.h"
-
-// Error types for status
-#define PK_STATUS_STSUCCESS 0
-#define PK_STATUS_STIOERROR 1
-#define PK_STATUS_STCORRUPTED 2
-
-#ifndef DISALLOW_COPY_AND_ASSIGN
-#define DISALLOW_COPY_AND_ASSIGN(TypeName) \
-  TypeName(const TypeName&);   \
-  void operator=(const TypeName&) 
-#endif
-
-
-#define PK_UNUSED(x) (void)(x)
-#define PK_MIN(a, b) ((a) < (b) ? (a) : (b))
-
-#define PK_PATHMAX 1024
-
-#define PK_CHECK_STATUS(st_exp) {\
-    Status st = (st_exp);\
-    if (!st.ok()) return st;}
-
-#define PK_INFO(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
-#define PK_WARN(msg) std::cout << "WARN: " << __FILE__ << ": " \
-                               << (msg) << std::endl;
-// #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
-#define PK_DEBUG(msg)
-
-// The same as strlcpy in FreeBSD
-size_t pasco_strlcpy(char *dst, const char *src, size_t siz);
-
-// 
-namespace pocketkaldi {
-namespace util {
-
-template<typename T,
-         typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
-inline std::string ToString(const T &val) {
-  return std::to_string(val);
-}
-template<typename T>
-inline std::string ToString(const T * const val) {
-  return std::to_string(reinterpret_cast<uint64_t>(val));
-}
-inline std::string ToString(const std::string &val) {
-  return val;
-}
-inline std::string ToString(const char *const &val) {
-  return std::string(val);
-}
-
-namespace {
-
-inline std::string FormatImpl(const std::string &formatted) {
-  return formatted;
-}
-template<typename T, typename... Args>
-inline std::string FormatImpl(
-    const std::string &formatted,
-    T &&item,
-    Args &&...args) {
-  size_t pos = formatted.find("{}");
-  std::string repl = ToString(item);
-  std::string next_formatted = formatted;
-  if (pos != std::string::npos) {
-    next_formatted.replace(pos, 2, repl);
-  }
-  return FormatImpl(next_formatted, std::forward<Args>(args)...);
-}
-
-}  // namespace
-
-// Format string function, just like Python, it uses '{}' for replacement. For
-// example:
-//   util::Format("Hello, {}, {}!", "World", "2233");
-template<typename... Args>
-inline std::string Format(const std::string &fmt, Args &&...args) {
-  return FormatImpl(fmt, std::forward<Args>(args)...);
-}
-
-// Trim string 
-std::string Trim(const std::string &str);
-
-// Split string by delim and returns as a vector of strings
-std::vector<std::string> Split(
-    const std::string &str,
-    const std::string &delim);
-
-// String tolower
-std::string Tolower(const std::string &str);
-
-// Converts a string to long.
-Status StringToLong(const std::string &str, long *val);
-
-// A wrapper of FILE in stdio.h
-class ReadableFile {
- public:
-  ReadableFile();
-  ~ReadableFile();
-
-  // Initialize ReadableFile with a borrowed FILE pointer
-  ReadableFile(FILE *fd);
-
-  // Return true if end-of-file reached
-  bool Eof() const;
-
-  // Open a file for read. If success, status->ok() will be true. Otherwise,
-  // status->ok() == false
-  Status Open(const std::string &filename);
-
-  // Read n bytes (size) from file and put to *ptr
-  Status Read(void *ptr, int size);
-
-  // Read a string with size `expected.size()` from file. Then compare it with
-  // `expected`. If different, return a failed state. Otherwise, return success
-  Status ReadAndVerifyString(const std::string &expected);
-
-  // Read an type T from file
-  template<typename T>
-  Status ReadValue(T *data) {
-    return Read(data, sizeof(T));
-  }
-
-  // Get filename
-  const std::string &filename() const {
-    return filename_;
-  }
-
-  // Return filesize
-  int64_t file_size() const {
-    assert(owned_ && "unable to call file_size() in borrowed mode");
-    return file_size_;
-  }
-
-  // Close opened file
-  void Close();
-
-  // Read a line from file. 
-  //     On success: status->ok() == true and return true.
-  //     On EOF reached first time: status->ok() == true and return false.
-  //     Other: status->ok() == false and return false.
-  bool ReadLine(std::string *line, Status *status);
-
- private:
-  std::string filename_;
-  FILE *fd_;
-  int64_t file_size_;
-  bool owned_;
-};
-
-// To check if a class have 'previous' field
-template <typename T>
-struct has_previous {
-  template<typename C> static int8_t check(decltype(&C::previous)) ;
-  template<typename C> static int16_t check(...);    
-  enum {
-    value = (sizeof(check<T>(0)) == sizeof(int8_t))
-  };
-};
-
-}  // namespace util
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_UTIL_H_
+// Created at 2016-11-24
+
+#ifndef POCKETKALDI_UTIL_H_
+#define POCKETKALDI_UTIL_H_
+
+#include <assert.h>
+#include <stdbool.h>
+#include <stdlib.h>
+#include <stdio.h>
+#include <string>
+#include <sstream>
+#include <iostream>
+#include <utility>
+#include <vector>
+#include "ce_stt.h"
+#include "status.h"
+
+// Error types for status
+#define PK_STATUS_STSUCCESS 0
+#define PK_STATUS_STIOERROR 1
+#define PK_STATUS_STCORRUPTED 2
+
+#ifndef DISALLOW_COPY_AND_ASSIGN
+#define DISALLOW_COPY_AND_ASSIGN(TypeName) \
+  TypeName(const TypeName&);   \
+  void operator=(const TypeName&) 
+#endif
+
+
+#define PK_UNUSED(x) (void)(x)
+#define PK_MIN(a, b) ((a) < (b) ? (a) : (b))
+
+#define PK_PATHMAX 1024
+
+#define PK_CHECK_STATUS(st_exp) {\
+    Status st = (st_exp);\
+    if (!st.ok()) return st;}
+
+#define PK_INFO(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
+#define PK_WARN(msg) std::cout << "WARN: " << __FILE__ << ": " \
+                               << (msg) << std::endl;
+// #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
+#define PK_DEBUG(msg)
+
+// The same as strlcpy in FreeBSD
+size_t pasco_strlcpy(char *dst, const char *src, size_t siz);
+
+// 
+namespace pocketkaldi {
+namespace util {
+
+template<typename T,
+         typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
+inline std::string ToString(const T &val) {
+  return std::to_string(val);
+}
+template<typename T>
+inline std::string ToString(const T * const val) {
+  return std::to_string(reinterpret_cast<uint64_t>(val));
+}
+inline std::string ToString(const std::string &val) {
+  return val;
+}
+inline std::string ToString(const char *const &val) {
+  return std::string(val);
+}
+
+namespace {
+
+inline std::string FormatImpl(const std::string &formatted) {
+  return formatted;
+}
+template<typename T, typename... Args>
+inline std::string FormatImpl(
+    const std::string &formatted,
+    T &&item,
+    Args &&...args) {
+  size_t pos = formatted.find("{}");
+  std::string repl = ToString(item);
+  std::string next_formatted = formatted;
+  if (pos != std::string::npos) {
+    next_formatted.replace(pos, 2, repl);
+  }
+  return FormatImpl(next_formatted, std::forward<Args>(args)...);
+}
+
+}  // namespace
+
+// Format string function, just like Python, it uses '{}' for replacement. For
+// example:
+//   util::Format("Hello, {}, {}!", "World", "2233");
+template<typename... Args>
+inline std::string Format(const std::string &fmt, Args &&...args) {
+  return FormatImpl(fmt, std::forward<Args>(args)...);
+}
+
+// Trim string 
+std::string Trim(const std::string &str);
+
+// Split string by delim and returns as a vector of strings
+std::vector<std::string> Split(
+    const std::string &str,
+    const std::string &delim);
+
+// String tolower
+std::string Tolower(const std::string &str);
+
+// Converts a string to long.
+Status StringToLong(const std::string &str, long *val);
+
+// A wrapper of FILE in stdio.h
+class ReadableFile {
+ public:
+  ReadableFile();
+  ~ReadableFile();
+
+  // Initialize ReadableFile with a borrowed FILE pointer
+  ReadableFile(FILE *fd);
+
+  // Return true if end-of-file reached
+  bool Eof() const;
+
+  // Open a file for read. If success, status->ok() will be true. Otherwise,
+  // status->ok() == false
+  Status Open(const std::string &filename);
+
+  // Read n bytes (size) from file and put to *ptr
+  Status Read(void *ptr, int size);
+
+  // Read a string with size `expected.size()` from file. Then compare it with
+  // `expected`. If different, return a failed state. Otherwise, return success
+  Status ReadAndVerifyString(const std::string &expected);
+
+  // Read an type T from file
+  template<typename T>
+  Status ReadValue(T *data) {
+    return Read(data, sizeof(T));
+  }
+
+  // Get filename
+  const std::string &filename() const {
+    return filename_;
+  }
+
+  // Return filesize
+  int64_t file_size() const {
+    assert(owned_ && "unable to call file_size() in borrowed mode");
+    return file_size_;
+  }
+
+  // Close opened file
+  void Close();
+
+  // Read a line from file. 
+  //     On success: status->ok() == true and return true.
+  //     On EOF reached first time: status->ok() == true and return false.
+  //     Other: status->ok() == false and return false.
+  bool ReadLine(std::string *line, Status *status);
+
+ private:
+  std::string filename_;
+  FILE *fd_;
+  int64_t file_size_;
+  bool owned_;
+
+  // true if ReadLine() has already reported the end of file
+  bool eof_reported_;
+};
+
+// To check if a class have 'previous' field
+template <typename T>
+struct has_previous {
+  template<typename C> static int8_t check(decltype(&C::previous)) ;
+  template<typename C> static int16_t check(...);    
+  enum {
+    value = (sizeof(check<T>(0)) == sizeof(int8_t))
+  };
+};
+
+}  // namespace util
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_UTIL_H_
-- 
2.43.0


From 6011d2a9455f50d23ad288deef58f7fa6acf612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 14/38] fix: reading zero bytes from a ReadableFile must
 succeed

An FST without arcs or a vector of dimension zero was reported as an IOError.
---
 src/util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 2b3514d..8e1f43e 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -125,6 +125,9 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
 }
 
 Status ReadableFile::Read(void *ptr, int size) {
+  // Nothing to read. fread() returns 0 in this case
+  if (size == 0) return Status::OK();
+
   if (1 != fread(ptr, size, 1, fd_)) {
     return Status::IOError(util::Format("failed to read: {}", filename_));
   } else {
-- 
2.43.0


From 63be44b31b3ebb3279feae676faeb5be6024743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 15/38] fix: StringToLong must refuse an empty string

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 8e1f43e..1e77e64 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,7 +52,7 @@ Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
+  if (trim_str.empty() || *end != '\0') {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0


From 0ff0fe9a8fa84b939b504039441d4f29e09788d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 16/38] fix: SymbolTable::Read must refuse ids that do not fit
 into an int

---
 src/symbol_table.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 31fbaf2..65633cb 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -3,6 +3,7 @@
 #include "symbol_table.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "util.h"
 
@@ -32,7 +33,7 @@ Status SymbolTable::Read(const std::string &filename) {
     std::string word = fields[0];
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    if (word_id < 0) {
+    if (word_id < 0 || word_id > INT_MAX) {
       return Status::Corruption(util::Format(
           "unexpected symbol id: {}",
           line));
-- 
2.43.0


From da87a015e4f2012235025965819c368d327c9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 17/38] fix: Vector::Read must refuse a negative dimension

---
 src/vector.cc | 622 +++++++++++++++++++++++++-------------------------
 1 file changed, 311 insertions(+), 311 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..5af7960 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -1,311 +1,311 @@
-
-#include "vector.h"
-
-#include <math.h>
-#include <stdlib.h>
-#include <string.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-template<typename Real>
-Vector<Real>::Vector(Vector<Real> &&v) {
-  this->dim_ = v.dim_;
-  this->data_ = v.data_;
-
-  v.dim_ = 0;
-  v.data_ = nullptr;
-}
-
-template<typename Real>
-Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
-  this->dim_ = v.dim_;
-  this->data_ = v.data_;
-
-  v.dim_ = 0;
-  v.data_ = nullptr;
-
-  return *this;
-}
-
-template<typename Real>
-inline void Vector<Real>::Init(int dim) {
-  assert(dim >= 0);
-  if (dim == 0) {
-    this->dim_ = 0;
-    this->data_ = NULL;
-    return;
-  }
-  int size;
-  void *data;
-
-  size = dim * sizeof(Real);
-
-  if (posix_memalign(&data, 32, size) == 0) {
-    this->data_ = static_cast<Real*>(data);
-    this->dim_ = dim;
-  } else {
-    throw std::bad_alloc();
-  }
-}
-
-/// Deallocates memory and sets object to empty vector.
-template<typename Real>
-void Vector<Real>::Destroy() {
-  /// we need to free the data block if it was defined
-  if (this->data_ != NULL) free(this->data_);
-  this->data_ = NULL;
-  this->dim_ = 0;
-}
-
-template<typename Real>
-void VectorBase<Real>::Set(Real f) {
-  // Why not use memset here?
-  for (int i = 0; i < dim_; i++) { data_[i] = f; }
-}
-
-template<typename Real>
-void VectorBase<Real>::SetZero() {
-  memset(data_, 0, dim_ * sizeof(Real));
-}
-
-/// Copy data from another vector
-template<typename Real>
-void VectorBase<Real>::CopyFromVec(const VectorBase<Real> &v) {
-  assert(Dim() == v.Dim());
-  if (data_ != v.data_) {
-    memcpy(this->data_, v.data_, dim_ * sizeof(Real));
-  }
-}
-
-template<typename Real>
-Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
-  int r_dim = r.Dim();
-  assert(r_dim == Dim());
-  const Real *l_data = Data();
-  const Real *r_data = r.Data();
-  Real sum = 0.0;
-  for (int i = 0; i < r_dim; i++) {
-    sum += l_data[i] * r_data[i];
-  }
-  return sum;
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplySoftMax() {
-  Real sum = 0;
-
-  for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
-    (*this)(i) = exp_d;
-    sum += exp_d;
-  }
-
-  for (int i = 0; i < Dim(); ++i) {
-    (*this)(i) /= sum;
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyLogSoftMax() {
-  Real sum = 0;
-
-  for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
-    sum += exp_d;
-  }
-  Real logsum = log(sum);
-  
-  for (int i = 0; i < Dim(); ++i) {
-    (*this)(i) -= logsum;
-  }
-}
-
-template<typename Real>
-void Vector<Real>::Swap(Vector<Real> *other) {
-  std::swap(this->data_, other->data_);
-  std::swap(this->dim_, other->dim_);
-}
-
-template<typename Real>
-void Vector<Real>::Resize(const int dim, int resize_type) {
-  // the next block uses recursion to handle what we have to do if
-  // resize_type == kCopyData.
-  if (resize_type == kCopyData) {
-    // nothing to copy.
-    if (this->data_ == NULL || dim == 0) resize_type = kSetZero;  
-    else if (this->dim_ == dim) { return; } // nothing to do.
-    else {
-      // set tmp to a vector of the desired size.
-      Vector<Real> tmp(dim, kUndefined);
-      if (dim > this->dim_) {
-        memcpy(tmp.data_, this->data_, sizeof(Real)*this->dim_);
-        memset(tmp.data_ + this->dim_, 0, sizeof(Real) * (dim-this->dim_));
-      } else {
-        memcpy(tmp.data_, this->data_, sizeof(Real)*dim);
-      }
-      tmp.Swap(this);
-      // and now let tmp go out of scope, deleting what was in *this.
-      return;
-    }
-  }
-  // At this point, resize_type == kSetZero or kUndefined.
-
-  if (this->data_ != NULL) {
-    if (this->dim_ == dim) {
-      if (resize_type == kSetZero) this->SetZero();
-      return;
-    } else {
-      Destroy();
-    }
-  }
-  Init(dim);
-  if (resize_type == kSetZero) this->SetZero();
-}
-
-template<typename Real>
-int VectorBase<Real>::ApplyFloor(Real floor_val) {
-  int num_floored = 0;
-  for (int i = 0; i < dim_; i++) {
-    if (data_[i] < floor_val) {
-      data_[i] = floor_val;
-      num_floored++;
-    }
-  }
-  return num_floored;
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyLog() {
-  for (int i = 0; i < dim_; i++) {
-    assert(data_[i] >= 0.0);
-    data_[i] = log(data_[i]);
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyPow(Real power) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] = pow(data_[i], power);
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::Scale(Real alpha) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] *= alpha;
-  }
-}
-
-
-template<typename Real>
-void VectorBase<Real>::Add(Real val) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] += val;
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::PrintDebug() {
-  printf("vector: dim = %d, data = [", dim_);
-  for (int i = 0; i < dim_; i++) {
-    printf("%s, ", std::to_string(data_[i]).c_str());
-  }
-  puts("]");
-}
-
-template<typename Real>
-void VectorBase<Real>::MulElements(const VectorBase<Real> &v) {
-  assert(v.Dim() == Dim() && "MulElements: vector size mismatch");
-  for (int i = 0; i < dim_; i++) {
-    data_[i] *= v(i);
-  }
-}
-
-template<typename Real>
-template<typename OtherReal>
-void VectorBase<Real>::CopyFromVec(const VectorBase<OtherReal> &other) {
-  assert(dim_ == other.Dim());
-  Real * __restrict__  ptr = data_;
-  const OtherReal * __restrict__ other_ptr = other.Data();
-  for (int i = 0; i < dim_; i++) {
-    ptr[i] = other_ptr[i];
-  }
-}
-
-template void VectorBase<float>::CopyFromVec(const VectorBase<double> &other);
-template void VectorBase<double>::CopyFromVec(const VectorBase<float> &other);
-
-template<typename Real>
-template<typename OtherReal>
-void VectorBase<Real>::AddVec(
-    const Real alpha,
-    const VectorBase<OtherReal> &v) {
-  assert(dim_ == v.dim_);
-  // remove __restrict__ if it causes compilation problems.
-  Real *__restrict__ data = data_;
-  OtherReal *__restrict__ other_data = v.data_;
-  int dim = dim_;
-  if (alpha != 1.0) {
-    for (int i = 0; i < dim; i++) {
-      data[i] += alpha * other_data[i];
-    }
-  } else {
-    for (int i = 0; i < dim; i++) {
-      data[i] += other_data[i];
-    }
-  }
-}
-
-template
-void VectorBase<float>::AddVec(const float alpha, const VectorBase<double> &v);
-template
-void VectorBase<float>::AddVec(const float alpha, const VectorBase<float> &v);
-template
-void VectorBase<double>::AddVec(const double alpha, const VectorBase<float> &v);
-
-template<typename Real>
-Status Vector<Real>::Read(util::ReadableFile *fd) {
-  static const char *kSectionName = "VEC0";
-  Status status;
-
-  // Read section name
-  status = fd->ReadAndVerifyString(kSectionName);
-  if (!status.ok()) return status;
-
-  // Section size
-  int32_t section_size;
-  status = fd->ReadValue<int32_t>(&section_size);
-  if (!status.ok()) return status;
-
-  // Dimension
-  int32_t dim;
-  status = fd->ReadValue<int32_t>(&dim);
-  if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
-    return Status::Corruption(util::Format(
-        "section_size = {} * {} + 4 expected, but {} found: {}",
-        dim,
-        sizeof(Real),
-        section_size,
-        fd->filename()));
-  }
-
-  // Read data
-  Resize(dim, kUndefined);
-  status = fd->Read(Vector<Real>::Data(), dim * sizeof(Real));
-  if (!status.ok()) return status;
-
-  return Status::OK();
-}
-
-template class Vector<float>;
-template class VectorBase<float>;
-template class Vector<double>;
-template class VectorBase<double>;
-template class Vector<int32_t>;
-template class VectorBase<int32_t>;
-template class Vector<uint8_t>;
-template class VectorBase<uint8_t>;
-
-}  // namespace pocketkaldi
+
+#include "vector.h"
+
+#include <math.h>
+#include <stdlib.h>
+#include <string.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+template<typename Real>
+Vector<Real>::Vector(Vector<Real> &&v) {
+  this->dim_ = v.dim_;
+  this->data_ = v.data_;
+
+  v.dim_ = 0;
+  v.data_ = nullptr;
+}
+
+template<typename Real>
+Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  this->dim_ = v.dim_;
+  this->data_ = v.data_;
+
+  v.dim_ = 0;
+  v.data_ = nullptr;
+
+  return *this;
+}
+
+template<typename Real>
+inline void Vector<Real>::Init(int dim) {
+  assert(dim >= 0);
+  if (dim == 0) {
+    this->dim_ = 0;
+    this->data_ = NULL;
+    return;
+  }
+  int size;
+  void *data;
+
+  size = dim * sizeof(Real);
+
+  if (posix_memalign(&data, 32, size) == 0) {
+    this->data_ = static_cast<Real*>(data);
+    this->dim_ = dim;
+  } else {
+    throw std::bad_alloc();
+  }
+}
+
+/// Deallocates memory and sets object to empty vector.
+template<typename Real>
+void Vector<Real>::Destroy() {
+  /// we need to free the data block if it was defined
+  if (this->data_ != NULL) free(this->data_);
+  this->data_ = NULL;
+  this->dim_ = 0;
+}
+
+template<typename Real>
+void VectorBase<Real>::Set(Real f) {
+  // Why not use memset here?
+  for (int i = 0; i < dim_; i++) { data_[i] = f; }
+}
+
+template<typename Real>
+void VectorBase<Real>::SetZero() {
+  memset(data_, 0, dim_ * sizeof(Real));
+}
+
+/// Copy data from another vector
+template<typename Real>
+void VectorBase<Real>::CopyFromVec(const VectorBase<Real> &v) {
+  assert(Dim() == v.Dim());
+  if (data_ != v.data_) {
+    memcpy(this->data_, v.data_, dim_ * sizeof(Real));
+  }
+}
+
+template<typename Real>
+Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
+  int r_dim = r.Dim();
+  assert(r_dim == Dim());
+  const Real *l_data = Data();
+  const Real *r_data = r.Data();
+  Real sum = 0.0;
+  for (int i = 0; i < r_dim; i++) {
+    sum += l_data[i] * r_data[i];
+  }
+  return sum;
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplySoftMax() {
+  Real sum = 0;
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = expf((*this)(i));
+    (*this)(i) = exp_d;
+    sum += exp_d;
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    (*this)(i) /= sum;
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyLogSoftMax() {
+  Real sum = 0;
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = exp((*this)(i));
+    sum += exp_d;
+  }
+  Real logsum = log(sum);
+  
+  for (int i = 0; i < Dim(); ++i) {
+    (*this)(i) -= logsum;
+  }
+}
+
+template<typename Real>
+void Vector<Real>::Swap(Vector<Real> *other) {
+  std::swap(this->data_, other->data_);
+  std::swap(this->dim_, other->dim_);
+}
+
+template<typename Real>
+void Vector<Real>::Resize(const int dim, int resize_type) {
+  // the next block uses recursion to handle what we have to do if
+  // resize_type == kCopyData.
+  if (resize_type == kCopyData) {
+    // nothing to copy.
+    if (this->data_ == NULL || dim == 0) resize_type = kSetZero;  
+    else if (this->dim_ == dim) { return; } // nothing to do.
+    else {
+      // set tmp to a vector of the desired size.
+      Vector<Real> tmp(dim, kUndefined);
+      if (dim > this->dim_) {
+        memcpy(tmp.data_, this->data_, sizeof(Real)*this->dim_);
+        memset(tmp.data_ + this->dim_, 0, sizeof(Real) * (dim-this->dim_));
+      } else {
+        memcpy(tmp.data_, this->data_, sizeof(Real)*dim);
+      }
+      tmp.Swap(this);
+      // and now let tmp go out of scope, deleting what was in *this.
+      return;
+    }
+  }
+  // At this point, resize_type == kSetZero or kUndefined.
+
+  if (this->data_ != NULL) {
+    if (this->dim_ == dim) {
+      if (resize_type == kSetZero) this->SetZero();
+      return;
+    } else {
+      Destroy();
+    }
+  }
+  Init(dim);
+  if (resize_type == kSetZero) this->SetZero();
+}
+
+template<typename Real>
+int VectorBase<Real>::ApplyFloor(Real floor_val) {
+  int num_floored = 0;
+  for (int i = 0; i < dim_; i++) {
+    if (data_[i] < floor_val) {
+      data_[i] = floor_val;
+      num_floored++;
+    }
+  }
+  return num_floored;
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyLog() {
+  for (int i = 0; i < dim_; i++) {
+    assert(data_[i] >= 0.0);
+    data_[i] = log(data_[i]);
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyPow(Real power) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] = pow(data_[i], power);
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::Scale(Real alpha) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] *= alpha;
+  }
+}
+
+
+template<typename Real>
+void VectorBase<Real>::Add(Real val) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] += val;
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::PrintDebug() {
+  printf("vector: dim = %d, data = [", dim_);
+  for (int i = 0; i < dim_; i++) {
+    printf("%s, ", std::to_string(data_[i]).c_str());
+  }
+  puts("]");
+}
+
+template<typename Real>
+void VectorBase<Real>::MulElements(const VectorBase<Real> &v) {
+  assert(v.Dim() == Dim() && "MulElements: vector size mismatch");
+  for (int i = 0; i < dim_; i++) {
+    data_[i] *= v(i);
+  }
+}
+
+template<typename Real>
+template<typename OtherReal>
+void VectorBase<Real>::CopyFromVec(const VectorBase<OtherReal> &other) {
+  assert(dim_ == other.Dim());
+  Real * __restrict__  ptr = data_;
+  const OtherReal * __restrict__ other_ptr = other.Data();
+  for (int i = 0; i < dim_; i++) {
+    ptr[i] = other_ptr[i];
+  }
+}
+
+template void VectorBase<float>::CopyFromVec(const VectorBase<double> &other);
+template void VectorBase<double>::CopyFromVec(const VectorBase<float> &other);
+
+template<typename Real>
+template<typename OtherReal>
+void VectorBase<Real>::AddVec(
+    const Real alpha,
+    const VectorBase<OtherReal> &v) {
+  assert(dim_ == v.dim_);
+  // remove __restrict__ if it causes compilation problems.
+  Real *__restrict__ data = data_;
+  OtherReal *__restrict__ other_data = v.data_;
+  int dim = dim_;
+  if (alpha != 1.0) {
+    for (int i = 0; i < dim; i++) {
+      data[i] += alpha * other_data[i];
+    }
+  } else {
+    for (int i = 0; i < dim; i++) {
+      data[i] += other_data[i];
+    }
+  }
+}
+
+template
+void VectorBase<float>::AddVec(const float alpha, const VectorBase<double> &v);
+template
+void VectorBase<float>::AddVec(const float alpha, const VectorBase<float> &v);
+template
+void VectorBase<double>::AddVec(const double alpha, const VectorBase<float> &v);
+
+template<typename Real>
+Status Vector<Real>::Read(util::ReadableFile *fd) {
+  static const char *kSectionName = "VEC0";
+  Status status;
+
+  // Read section name
+  status = fd->ReadAndVerifyString(kSectionName);
+  if (!status.ok()) return status;
+
+  // Section size
+  int32_t section_size;
+  status = fd->ReadValue<int32_t>(&section_size);
+  if (!status.ok()) return status;
+
+  // Dimension
+  int32_t dim;
+  status = fd->ReadValue<int32_t>(&dim);
+  if (!status.ok()) return status;
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
+    return Status::Corruption(util::Format(
+        "section_size = {} * {} + 4 expected, but {} found: {}",
+        dim,
+        sizeof(Real),
+        section_size,
+        fd->filename()));
+  }
+
+  // Read data
+  Resize(dim, kUndefined);
+  status = fd->Read(Vector<Real>::Data(), dim * sizeof(Real));
+  if (!status.ok()) return status;
+
+  return Status::OK();
+}
+
+template class Vector<float>;
+template class VectorBase<float>;
+template class Vector<double>;
+template class VectorBase<double>;
+template class Vector<int32_t>;
+template class VectorBase<int32_t>;
+template class Vector<uint8_t>;
+template class VectorBase<uint8_t>;
+
+}  // namespace pocketkaldi
-- 
2.43.0


From 546a386e4e013bed7f3f756666687251e71b724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 18/38] fix: Matrix::Read must refuse invalid dimensions

Resize() aborts on them.
---
 src/matrix.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index a50730f..1739cc9 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,6 +169,14 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} * {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
-- 
2.43.0


From 8725dbca405e9d441974efe9cc9d2d4982cac66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 19/38] fix: Fst::Read must refuse negative sizes

---
 src/fst.cc | 665 +++++++++++++++++++++++++++--------------------------
 1 file changed, 336 insertions(+), 329 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..5957dcf 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -1,329 +1,336 @@
-// Created at 2016-11-24
-
-#include "fst.h"
-
-#include <assert.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-#include <cmath>
-#include <array>
-#include <algorithm>
-#include "symbol_table.h"
-
-namespace pocketkaldi {
-
-const char *Fst::kSectionName = "pk::fst_0";
-
-FstArc::FstArc() {}
-FstArc::FstArc(int next_state, int ilabel, int olabel, float weight): 
-    next_state(next_state),
-    input_label(ilabel),
-    output_label(olabel),
-    weight(weight) {}
-
-
-Fst::Fst(): start_state_(0) {}
-Fst::~Fst() {}
-
-Fst::ArcIterator::ArcIterator(int base, int total, const FstArc *arcs) :
-    base_(base),
-    cnt_pos_(0),
-    total_(total),
-    arcs_(arcs) {
-}
-Fst::ArcIterator::~ArcIterator() {
-  arcs_ = nullptr;
-  base_ = 0;
-  cnt_pos_ = 0;
-  total_ = 0;
-}
-
-int Fst::StartState() const {
-  return start_state_;
-}
-
-float Fst::Final(int state_id) const {
-  assert(state_id < final_.size());
-  return final_[state_id];
-}
-
-Status Fst::Read(util::ReadableFile *fd) {
-  Status status;
-
-  // Checks section name
-  int section_size;
-  std::array<char, 32> section_name;
-  status = fd->Read(section_name.data(), 32);
-  if (!status.ok()) return status;
-  section_name.back() = '\0';
-  if (std::string(section_name.data()) != kSectionName) {
-    return Status::Corruption(fd->filename());
-  }
-  status = fd->ReadValue<int32_t>(&section_size);
-  if (!status.ok()) return status;
-
-  // Metadata
-  int32_t state_number,
-          arc_number,
-          start_state;
-  status = fd->ReadValue<int32_t>(&state_number);
-  if (!status.ok()) return status;
-  status = fd->ReadValue<int32_t>(&arc_number);
-  if (!status.ok()) return status;  
-  status = fd->ReadValue<int32_t>(&start_state);
-  if (!status.ok()) return status;  
-  start_state_ = start_state;
-
-  // Check section size
-  int expected_section_size =
-      sizeof(state_number) +
-      sizeof(arc_number) +
-      sizeof(start_state) +
-      state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
-      arc_number * sizeof(FstArc);
-  if (expected_section_size != section_size) {
-    return Status::Corruption(util::Format(
-        "section_size == {} expected, but {} found",
-        expected_section_size,
-        section_size));
-  }
-
-  // Final weight
-  final_.resize(state_number);
-  status = fd->Read(final_.data(), sizeof(final_.front()) * final_.size());
-  if (!status.ok()) return status; 
-
-  // State idx
-  state_idx_.resize(state_number);
-  status = fd->Read(
-      state_idx_.data(),
-      sizeof(state_idx_.front()) * state_idx_.size());
-  if (!status.ok()) return status;
-
-  // Arcs
-  arcs_.resize(arc_number);
-  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
-  if (!status.ok()) return status;
-
-  // Success
-  return status;
-}
-
-int Fst::CountArcs(int state) const {
-  int state_idx = state_idx_[state];
-  if (state_idx < 0) return 0;
-
-  int count;
-  int next_state = -1;
-
-  // Find the next state that have outcoming arcs
-  for (int chk_state = state + 1; chk_state < state_idx_.size(); ++chk_state) {
-    if (state_idx_[chk_state] > 0) {
-      next_state = chk_state;
-      break;
-    }
-  }
-  int next_idx = next_state >= 0 ? state_idx_[next_state] : arcs_.size();
-  return next_idx - state_idx;
-}
-
-bool Fst::GetArc(int state, int ilabel, FstArc *arc) const {
-  int num_arcs = CountArcs(state);
-  if (num_arcs == 0) return false;
-
-  int start_idx = state_idx_[state];
-  const FstArc *first = &arcs_[start_idx];
-  const FstArc *last = &arcs_[start_idx + num_arcs];
-
-
-  const FstArc *found_arc = std::lower_bound(
-      first,
-      last,
-      FstArc(0, ilabel, 0, 0.0f), 
-      [] (const FstArc &l, const FstArc &r) {
-        return l.input_label < r.input_label;
-      });
-  if (found_arc == last || found_arc->input_label != ilabel) {
-    return false;
-  } else {
-    // We have found this arc
-    *arc = *found_arc;
-    return true;
-  }
-}
-
-Fst::ArcIterator Fst::IterateArcs(int state) const {
-  assert(state < state_idx_.size() && state >= 0);
-  int total_arcs = CountArcs(state);
-  return ArcIterator(
-    state_idx_[state],
-    total_arcs,
-    arcs_.data());
-}
-
-const FstArc *Fst::ArcIterator::Next() {
-  if (cnt_pos_ < total_) {
-    const FstArc *arc = &arcs_[base_ + cnt_pos_];
-    ++cnt_pos_;
-    return arc;
-  } else {
-    return nullptr;
-  }
-}
-
-void LmFst::InitBucket0() {
-  // Optimize for special state 0
-  ArcIterator arc_iter = IterateArcs(0);
-  const FstArc *arc = nullptr;
-  int max_ilabel = 0;
-  while ((arc = arc_iter.Next()) != nullptr) {
-    if (arc->input_label > max_ilabel) {
-      max_ilabel = arc->input_label;
-    }
-  }
-
-  // Initalize bucket_0_
-  bucket_0_.resize(max_ilabel + 1);
-  for (FstArc &arc : bucket_0_) {
-    arc.input_label = -1;
-  }
-
-  // Fill bucket_0_
-  arc_iter = IterateArcs(0);
-  while ((arc = arc_iter.Next()) != nullptr) {
-    bucket_0_[arc->input_label] = *arc;
-  }
-}
-
-const FstArc *LmFst::GetBackoffArc(int state) const {
-  int num_arcs = CountArcs(state);
-  if (num_arcs == 0) return nullptr;
-
-  int start_idx = state_idx_[state];
-  const FstArc *first = &arcs_[start_idx];
-
-  if (first->input_label != 0) return nullptr;
-  return first;
-}
-
-bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
-  assert(ilabel != 0 && "invalid ilabel");
-
-  // We have special optimize for state 0
-  if (state == 0 && ilabel < bucket_0_.size()) {
-    if (bucket_0_[ilabel].input_label == ilabel) {
-      *arc = bucket_0_[ilabel];
-      return true;
-    }
-  }
-
-  if (Fst::GetArc(state, ilabel, arc)) {
-    return true;
-  } else {
-    const FstArc *backoff_arc = GetBackoffArc(state);
-    if (backoff_arc) {
-      if (!GetArc(backoff_arc->next_state, ilabel, arc)) return false;
-      arc->weight += backoff_arc->weight;
-      return true;
-    } else {
-      return false;
-    }
-  }
-}
-
-float LmFst::Final(int state_id) const {
-  float final = Fst::Final(state_id);
-  if (std::isfinite(final)) {
-    return final;
-  } else {
-    // Follow the backoff arc
-    const FstArc *backoff_arc = GetBackoffArc(state_id);
-    if (backoff_arc) {
-      float final_w = Final(backoff_arc->next_state);
-      if (!std::isfinite(final_w)) return INFINITY;
-
-      return final_w + backoff_arc->weight;
-    } else {
-      return INFINITY;
-    }
-  }
-}
-
-DeltaLmFst::DeltaLmFst(
-    const Vector<float> *small_lm,
-    const LmFst *lm,
-    const SymbolTable *symbol_table):
-        small_lm_(small_lm),
-        lm_(lm) {
-  bos_symbol_ = symbol_table->bos_id();
-  eos_symbol_ = symbol_table->eos_id();
-}
-
-int DeltaLmFst::StartState() const {
-  int start_state = lm_->StartState();
-  FstArc arc;
-  if (lm_->GetArc(start_state, bos_symbol_, &arc)) {
-    return arc.next_state;
-  } else {
-    PK_WARN("lm_ didn't have symbol <s> as input");
-    return start_state;
-  }
-}
-
-bool DeltaLmFst::GetArc(int state, int ilabel, FstArc *arc) const {
-  if (lm_->GetArc(state, ilabel, arc)) {
-    arc->weight -= (*small_lm_)(ilabel);
-    return true;
-  } else {
-    return false;
-  }
-}
-
-float DeltaLmFst::Final(int state_id) const {
-  FstArc arc;
-  if (lm_->GetArc(state_id, eos_symbol_, &arc)) {
-    return lm_->Final(arc.next_state) + arc.weight - (*small_lm_)(eos_symbol_);
-  } else {
-    return INFINITY;
-  }
-}
-
-CachedFst::CachedFst(const IFst *fst, int bucket_size) : fst_(fst) {
-  buckets_.resize(bucket_size);
-  for (std::pair<int, FstArc> &item : buckets_) {
-    item.first = -1;
-  }
-}
-
-int CachedFst::StartState() const {
-  return fst_->StartState();
-}
-
-float CachedFst::Final(int state) const {
-  return fst_->Final(state);
-}
-
-bool CachedFst::GetArc(int state, int ilabel, FstArc *arc) {
-  // Do nothing when state is 0, we have special optimize for it
-  if (state == 0) {
-    return fst_->GetArc(state, ilabel, arc);
-  }
-
-  int idx = Hash(state, ilabel) % buckets_.size();
-  std::pair<int, FstArc> &item = buckets_[idx];
-  if (item.first == state && item.second.input_label == ilabel) {
-    *arc = item.second;
-    return true;
-  }
-
-  bool success = fst_->GetArc(state, ilabel, arc);
-  if (success) {
-    item.first = state;
-    item.second = *arc;
-  }
-
-  return success;
-}
-
-}  // namespace pocketkaldi
+// Created at 2016-11-24
+
+#include "fst.h"
+
+#include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <cmath>
+#include <array>
+#include <algorithm>
+#include "symbol_table.h"
+
+namespace pocketkaldi {
+
+const char *Fst::kSectionName = "pk::fst_0";
+
+FstArc::FstArc() {}
+FstArc::FstArc(int next_state, int ilabel, int olabel, float weight): 
+    next_state(next_state),
+    input_label(ilabel),
+    output_label(olabel),
+    weight(weight) {}
+
+
+Fst::Fst(): start_state_(0) {}
+Fst::~Fst() {}
+
+Fst::ArcIterator::ArcIterator(int base, int total, const FstArc *arcs) :
+    base_(base),
+    cnt_pos_(0),
+    total_(total),
+    arcs_(arcs) {
+}
+Fst::ArcIterator::~ArcIterator() {
+  arcs_ = nullptr;
+  base_ = 0;
+  cnt_pos_ = 0;
+  total_ = 0;
+}
+
+int Fst::StartState() const {
+  return start_state_;
+}
+
+float Fst::Final(int state_id) const {
+  assert(state_id < final_.size());
+  return final_[state_id];
+}
+
+Status Fst::Read(util::ReadableFile *fd) {
+  Status status;
+
+  // Checks section name
+  int section_size;
+  std::array<char, 32> section_name;
+  status = fd->Read(section_name.data(), 32);
+  if (!status.ok()) return status;
+  section_name.back() = '\0';
+  if (std::string(section_name.data()) != kSectionName) {
+    return Status::Corruption(fd->filename());
+  }
+  status = fd->ReadValue<int32_t>(&section_size);
+  if (!status.ok()) return status;
+
+  // Metadata
+  int32_t state_number,
+          arc_number,
+          start_state;
+  status = fd->ReadValue<int32_t>(&state_number);
+  if (!status.ok()) return status;
+  status = fd->ReadValue<int32_t>(&arc_number);
+  if (!status.ok()) return status;  
+  status = fd->ReadValue<int32_t>(&start_state);
+  if (!status.ok()) return status;  
+  start_state_ = start_state;
+
+  if (state_number < 0 || arc_number < 0) {
+    return Status::Corruption(util::Format(
+        "unexpected state_number or arc_number: {}, {}",
+        state_number,
+        arc_number));
+  }
+
+  // Check section size
+  int64_t expected_section_size =
+      sizeof(state_number) +
+      sizeof(arc_number) +
+      sizeof(start_state) +
+      state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
+      arc_number * sizeof(FstArc);
+  if (expected_section_size != section_size) {
+    return Status::Corruption(util::Format(
+        "section_size == {} expected, but {} found",
+        expected_section_size,
+        section_size));
+  }
+
+  // Final weight
+  final_.resize(state_number);
+  status = fd->Read(final_.data(), sizeof(final_.front()) * final_.size());
+  if (!status.ok()) return status; 
+
+  // State idx
+  state_idx_.resize(state_number);
+  status = fd->Read(
+      state_idx_.data(),
+      sizeof(state_idx_.front()) * state_idx_.size());
+  if (!status.ok()) return status;
+
+  // Arcs
+  arcs_.resize(arc_number);
+  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
+  if (!status.ok()) return status;
+
+  // Success
+  return status;
+}
+
+int Fst::CountArcs(int state) const {
+  int state_idx = state_idx_[state];
+  if (state_idx < 0) return 0;
+
+  int count;
+  int next_state = -1;
+
+  // Find the next state that have outcoming arcs
+  for (int chk_state = state + 1; chk_state < state_idx_.size(); ++chk_state) {
+    if (state_idx_[chk_state] > 0) {
+      next_state = chk_state;
+      break;
+    }
+  }
+  int next_idx = next_state >= 0 ? state_idx_[next_state] : arcs_.size();
+  return next_idx - state_idx;
+}
+
+bool Fst::GetArc(int state, int ilabel, FstArc *arc) const {
+  int num_arcs = CountArcs(state);
+  if (num_arcs == 0) return false;
+
+  int start_idx = state_idx_[state];
+  const FstArc *first = &arcs_[start_idx];
+  const FstArc *last = &arcs_[start_idx + num_arcs];
+
+
+  const FstArc *found_arc = std::lower_bound(
+      first,
+      last,
+      FstArc(0, ilabel, 0, 0.0f), 
+      [] (const FstArc &l, const FstArc &r) {
+        return l.input_label < r.input_label;
+      });
+  if (found_arc == last || found_arc->input_label != ilabel) {
+    return false;
+  } else {
+    // We have found this arc
+    *arc = *found_arc;
+    return true;
+  }
+}
+
+Fst::ArcIterator Fst::IterateArcs(int state) const {
+  assert(state < state_idx_.size() && state >= 0);
+  int total_arcs = CountArcs(state);
+  return ArcIterator(
+    state_idx_[state],
+    total_arcs,
+    arcs_.data());
+}
+
+const FstArc *Fst::ArcIterator::Next() {
+  if (cnt_pos_ < total_) {
+    const FstArc *arc = &arcs_[base_ + cnt_pos_];
+    ++cnt_pos_;
+    return arc;
+  } else {
+    return nullptr;
+  }
+}
+
+void LmFst::InitBucket0() {
+  // Optimize for special state 0
+  ArcIterator arc_iter = IterateArcs(0);
+  const FstArc *arc = nullptr;
+  int max_ilabel = 0;
+  while ((arc = arc_iter.Next()) != nullptr) {
+    if (arc->input_label > max_ilabel) {
+      max_ilabel = arc->input_label;
+    }
+  }
+
+  // Initalize bucket_0_
+  bucket_0_.resize(max_ilabel + 1);
+  for (FstArc &arc : bucket_0_) {
+    arc.input_label = -1;
+  }
+
+  // Fill bucket_0_
+  arc_iter = IterateArcs(0);
+  while ((arc = arc_iter.Next()) != nullptr) {
+    bucket_0_[arc->input_label] = *arc;
+  }
+}
+
+const FstArc *LmFst::GetBackoffArc(int state) const {
+  int num_arcs = CountArcs(state);
+  if (num_arcs == 0) return nullptr;
+
+  int start_idx = state_idx_[state];
+  const FstArc *first = &arcs_[start_idx];
+
+  if (first->input_label != 0) return nullptr;
+  return first;
+}
+
+bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
+  assert(ilabel != 0 && "invalid ilabel");
+
+  // We have special optimize for state 0
+  if (state == 0 && ilabel < bucket_0_.size()) {
+    if (bucket_0_[ilabel].input_label == ilabel) {
+      *arc = bucket_0_[ilabel];
+      return true;
+    }
+  }
+
+  if (Fst::GetArc(state, ilabel, arc)) {
+    return true;
+  } else {
+    const FstArc *backoff_arc = GetBackoffArc(state);
+    if (backoff_arc) {
+      if (!GetArc(backoff_arc->next_state, ilabel, arc)) return false;
+      arc->weight += backoff_arc->weight;
+      return true;
+    } else {
+      return false;
+    }
+  }
+}
+
+float LmFst::Final(int state_id) const {
+  float final = Fst::Final(state_id);
+  if (std::isfinite(final)) {
+    return final;
+  } else {
+    // Follow the backoff arc
+    const FstArc *backoff_arc = GetBackoffArc(state_id);
+    if (backoff_arc) {
+      float final_w = Final(backoff_arc->next_state);
+      if (!std::isfinite(final_w)) return INFINITY;
+
+      return final_w + backoff_arc->weight;
+    } else {
+      return INFINITY;
+    }
+  }
+}
+
+DeltaLmFst::DeltaLmFst(
+    const Vector<float> *small_lm,
+    const LmFst *lm,
+    const SymbolTable *symbol_table):
+        small_lm_(small_lm),
+        lm_(lm) {
+  bos_symbol_ = symbol_table->bos_id();
+  eos_symbol_ = symbol_table->eos_id();
+}
+
+int DeltaLmFst::StartState() const {
+  int start_state = lm_->StartState();
+  FstArc arc;
+  if (lm_->GetArc(start_state, bos_symbol_, &arc)) {
+    return arc.next_state;
+  } else {
+    PK_WARN("lm_ didn't have symbol <s> as input");
+    return start_state;
+  }
+}
+
+bool DeltaLmFst::GetArc(int state, int ilabel, FstArc *arc) const {
+  if (lm_->GetArc(state, ilabel, arc)) {
+    arc->weight -= (*small_lm_)(ilabel);
+    return true;
+  } else {
+    return false;
+  }
+}
+
+float DeltaLmFst::Final(int state_id) const {
+  FstArc arc;
+  if (lm_->GetArc(state_id, eos_symbol_, &arc)) {
+    return lm_->Final(arc.next_state) + arc.weight - (*small_lm_)(eos_symbol_);
+  } else {
+    return INFINITY;
+  }
+}
+
+CachedFst::CachedFst(const IFst *fst, int bucket_size) : fst_(fst) {
+  buckets_.resize(bucket_size);
+  for (std::pair<int, FstArc> &item : buckets_) {
+    item.first = -1;
+  }
+}
+
+int CachedFst::StartState() const {
+  return fst_->StartState();
+}
+
+float CachedFst::Final(int state) const {
+  return fst_->Final(state);
+}
+
+bool CachedFst::GetArc(int state, int ilabel, FstArc *arc) {
+  // Do nothing when state is 0, we have special optimize for it
+  if (state == 0) {
+    return fst_->GetArc(state, ilabel, arc);
+  }
+
+  int idx = Hash(state, ilabel) % buckets_.size();
+  std::pair<int, FstArc> &item = buckets_[idx];
+  if (item.first == state && item.second.input_label == ilabel) {
+    *arc = item.second;
+    return true;
+  }
+
+  bool success = fst_->GetArc(state, ilabel, arc);
+  if (success) {
+    item.first = state;
+    item.second = *arc;
+  }
+
+  return success;
+}
+
+}  // namespace pocketkaldi
-- 
2.43.0


From d357705ce0bc02f1efa4b72c0d5d55041b272a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 20/38] fix: Nnet::Read must refuse a negative number of layers

---
 src/nnet.cc | 624 ++++++++++++++++++++++++++--------------------------
 1 file changed, 315 insertions(+), 309 deletions(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..55adaaa 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -1,309 +1,315 @@
-// Created at 2017-03-13
-
-#include "nnet.h"
-
-#include <assert.h>
-#include <math.h>
-
-namespace pocketkaldi {
-
-LinearLayer::LinearLayer() {}
-LinearLayer::LinearLayer(
-    const MatrixBase<float> &W,
-    const VectorBase<float> &b) {
-  assert(b.Dim() == W.NumRows() && 
-         "linear layer: dimension mismatch in W and b");
-  W_.Resize(W.NumCols(), W.NumRows());
-  W_.CopyFromMat(W, MatrixBase<float>::kTrans);
-  b_.Resize(b.Dim());
-  b_.CopyFromVec(b);
-}
-
-void LinearLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(b_.Dim() != 0 && "LinearLayer is not initialized");
-  out->Resize(in.NumRows(), W_.NumCols());
-
-  // xW
-  MatMat(in, W_, out);
-
-  // + b
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.AddVec(1.0f, b_);
-  }
-}
-
-Status LinearLayer::Read(util::ReadableFile *fd) {
-  PK_CHECK_STATUS(W_.Read(fd));
-  PK_CHECK_STATUS(b_.Read(fd));
-
-  return Status::OK();
-}
-
-SpliceLayer::SpliceLayer() {}
-SpliceLayer::SpliceLayer(const std::vector<int> &indices):
-    indices_(indices) {
-}
-
-void SpliceLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(indices_.size() != 0 && "SpliceLayer is not initialized");
-  if (in.NumRows() == 0 || in.NumCols() == 0) return;
-
-  int out_cols = indices_.size() * in.NumCols();
-  out->Resize(in.NumRows(), out_cols);
-
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> out_row = out->Row(row_idx);
-    int offset = 0;
-
-    // Left context
-    for (int c : indices_) {
-      int cnt_idx = row_idx + c;
-      if (cnt_idx < 0) cnt_idx = 0;
-      if (cnt_idx > in.NumRows() - 1) cnt_idx = in.NumRows() - 1;
-      SubVector<float> v = out_row.Range(offset, in.NumCols());
-      v.CopyFromVec(in.Row(cnt_idx));
-      offset += in.NumCols();
-    }
-
-    assert(offset == out_cols && "splice: offset and size mismatch");
-  }
-}
-
-Status SpliceLayer::Read(util::ReadableFile *fd) {
-  // Clean indices_
-  indices_.clear();
-
-  int32_t num_indcies = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
-  if (num_indcies < 0) {
-    return Status::Corruption("SpliceLayer: unexpected num_indcies");
-  }
-
-  // Read each index
-  int32_t index = 0;
-  for (int i = 0; i < num_indcies; ++i) {
-    PK_CHECK_STATUS(fd->ReadValue<int32_t>(&index));
-    indices_.push_back(index);
-  }
-
-  return Status::OK();
-}
-
-BatchNormLayer::BatchNormLayer() {}
-BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
-                               const VectorBase<float> &offset) {
-  scale_.Resize(scale.Dim());
-  scale_.CopyFromVec(scale);
-  offset_.Resize(offset.Dim());
-  offset_.CopyFromVec(offset);
-}
-
-void BatchNormLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(scale_.Dim() > 0 && "BatchNormLayer is not initialized");
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.MulElements(scale_);
-    row.AddVec(1.0, offset_);
-  }
-}
-
-Status BatchNormLayer::Read(util::ReadableFile *fd) {
-  PK_CHECK_STATUS(scale_.Read(fd));
-  PK_CHECK_STATUS(offset_.Read(fd));
-
-  return Status::OK();
-}
-
-void SoftmaxLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.ApplySoftMax();
-  }
-}
-
-void LogSoftmaxLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.ApplyLogSoftMax();
-  }
-}
-
-
-void ReLULayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    for (int col_idx = 0; col_idx < row.Dim(); ++ col_idx) {
-      if (row(col_idx) < 0.0f) row(col_idx) = 0.0f;
-    }
-  }
-}
-
-void NormalizeLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  float D = in.NumCols();
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-
-    double squared_sum = row.VecVec(row);
-    float scale = static_cast<float>(sqrt(D / squared_sum));
-    row.Scale(scale);
-  }
-}
-
-
-NarrowLayer::NarrowLayer(): narrow_left_(-1), narrow_right_(-1) {}
-NarrowLayer::NarrowLayer(int narrow_left, int narrow_right):
-    narrow_left_(narrow_left), narrow_right_(narrow_right) {}
-
-void NarrowLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(narrow_left_ >= 0 && "NarrowLayer is not initialized");
-  if (in.NumRows() <= narrow_left_ + narrow_right_) {
-    // Do nothing if no enough rows to narrow
-    out->Resize(in.NumRows(), in.NumCols());
-    out->CopyFromMat(in);
-  } else {
-    out->Resize(
-        in.NumRows() - narrow_left_ - narrow_right_,
-        in.NumCols());
-    SubMatrix<float> narrow(
-        in,
-        narrow_left_,
-        in.NumRows() - narrow_left_ - narrow_right_,
-        0,
-        in.NumCols());
-    out->CopyFromMat(narrow);
-  }
-}
-
-Status NarrowLayer::Read(util::ReadableFile *fd) {
-  int32_t narrow_left = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_left));
-
-  int32_t narrow_right = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
-
-  narrow_right_ = narrow_right;
-  narrow_left_ = narrow_left;
-
-  return Status::OK();
-}
-
-
-Nnet::Nnet(): left_context_(0), right_context_(0) {
-}
-
-Status Nnet::ReadLayer(util::ReadableFile *fd) {
-  Matrix<float> W;
-  Vector<float> b;
-
-  // Read section name
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_LAYER_SECTION));
-
-  // Read layer type
-  int layer_type;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&layer_type));
-
-  // Read additional parameters and initialize layer
-  std::unique_ptr<Layer> layer = nullptr;
-  switch (layer_type) {
-  case Layer::kLinear:
-    layer = std::unique_ptr<Layer>(new LinearLayer());
-    break;
-  case Layer::kReLU:
-    layer = std::unique_ptr<Layer>(new ReLULayer());
-    break;
-  case Layer::kNormalize:
-    layer = std::unique_ptr<Layer>(new NormalizeLayer());
-    break;
-  case Layer::kSoftmax:
-    layer = std::unique_ptr<Layer>(new SoftmaxLayer());
-    break;
-  case Layer::kSplice:
-    layer = std::unique_ptr<Layer>(new SpliceLayer());
-    break;
-  case Layer::kBatchNorm:
-    layer = std::unique_ptr<Layer>(new BatchNormLayer());
-    break;
-  case Layer::kLogSoftmax:
-    layer = std::unique_ptr<Layer>(new LogSoftmaxLayer());
-    break;
-  case Layer::kNarrow:
-    layer = std::unique_ptr<Layer>(new NarrowLayer());
-    break;
-  default:
-    return Status::Corruption(util::Format(
-        "read_layer: unexpected layer type: {} ({})",
-        layer_type,
-        fd->filename()));
-  }
-
-  // Read the content of this layer (if have)
-  PK_CHECK_STATUS(layer->Read(fd));
-  layers_.emplace_back(std::move(layer));
-
-  return Status::OK();
-}
-
-Status Nnet::Read(util::ReadableFile *fd) {
-  // Read section name
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_SECTION));
-
-  int32_t left_context = 0, right_context = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&left_context));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&right_context));
-  left_context_ = left_context;
-  right_context_ = right_context;
-
-
-  int32_t num_layers;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
-
-  // Read each layers
-  for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-    PK_CHECK_STATUS(ReadLayer(fd));
-  }
-
-  return Status::OK();
-}
-
-void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
-  Matrix<float> layer_input, layer_output;
-  
-  layer_input.Resize(in.NumRows(), in.NumCols());
-  layer_input.CopyFromMat(in);
-  for (const std::unique_ptr<Layer> &layer : layers_) {
-    layer->Propagate(layer_input, &layer_output);
-    layer_input.Swap(&layer_output);
-  }
-
-  out->Resize(layer_input.NumRows(), layer_input.NumCols());
-  out->CopyFromMat(layer_input);
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-03-13
+
+#include "nnet.h"
+
+#include <assert.h>
+#include <math.h>
+
+namespace pocketkaldi {
+
+LinearLayer::LinearLayer() {}
+LinearLayer::LinearLayer(
+    const MatrixBase<float> &W,
+    const VectorBase<float> &b) {
+  assert(b.Dim() == W.NumRows() && 
+         "linear layer: dimension mismatch in W and b");
+  W_.Resize(W.NumCols(), W.NumRows());
+  W_.CopyFromMat(W, MatrixBase<float>::kTrans);
+  b_.Resize(b.Dim());
+  b_.CopyFromVec(b);
+}
+
+void LinearLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(b_.Dim() != 0 && "LinearLayer is not initialized");
+  out->Resize(in.NumRows(), W_.NumCols());
+
+  // xW
+  MatMat(in, W_, out);
+
+  // + b
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.AddVec(1.0f, b_);
+  }
+}
+
+Status LinearLayer::Read(util::ReadableFile *fd) {
+  PK_CHECK_STATUS(W_.Read(fd));
+  PK_CHECK_STATUS(b_.Read(fd));
+
+  return Status::OK();
+}
+
+SpliceLayer::SpliceLayer() {}
+SpliceLayer::SpliceLayer(const std::vector<int> &indices):
+    indices_(indices) {
+}
+
+void SpliceLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(indices_.size() != 0 && "SpliceLayer is not initialized");
+  if (in.NumRows() == 0 || in.NumCols() == 0) return;
+
+  int out_cols = indices_.size() * in.NumCols();
+  out->Resize(in.NumRows(), out_cols);
+
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> out_row = out->Row(row_idx);
+    int offset = 0;
+
+    // Left context
+    for (int c : indices_) {
+      int cnt_idx = row_idx + c;
+      if (cnt_idx < 0) cnt_idx = 0;
+      if (cnt_idx > in.NumRows() - 1) cnt_idx = in.NumRows() - 1;
+      SubVector<float> v = out_row.Range(offset, in.NumCols());
+      v.CopyFromVec(in.Row(cnt_idx));
+      offset += in.NumCols();
+    }
+
+    assert(offset == out_cols && "splice: offset and size mismatch");
+  }
+}
+
+Status SpliceLayer::Read(util::ReadableFile *fd) {
+  // Clean indices_
+  indices_.clear();
+
+  int32_t num_indcies = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
+  if (num_indcies < 0) {
+    return Status::Corruption("SpliceLayer: unexpected num_indcies");
+  }
+
+  // Read each index
+  int32_t index = 0;
+  for (int i = 0; i < num_indcies; ++i) {
+    PK_CHECK_STATUS(fd->ReadValue<int32_t>(&index));
+    indices_.push_back(index);
+  }
+
+  return Status::OK();
+}
+
+BatchNormLayer::BatchNormLayer() {}
+BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
+                               const VectorBase<float> &offset) {
+  scale_.Resize(scale.Dim());
+  scale_.CopyFromVec(scale);
+  offset_.Resize(offset.Dim());
+  offset_.CopyFromVec(offset);
+}
+
+void BatchNormLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(scale_.Dim() > 0 && "BatchNormLayer is not initialized");
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.MulElements(scale_);
+    row.AddVec(1.0, offset_);
+  }
+}
+
+Status BatchNormLayer::Read(util::ReadableFile *fd) {
+  PK_CHECK_STATUS(scale_.Read(fd));
+  PK_CHECK_STATUS(offset_.Read(fd));
+
+  return Status::OK();
+}
+
+void SoftmaxLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.ApplySoftMax();
+  }
+}
+
+void LogSoftmaxLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.ApplyLogSoftMax();
+  }
+}
+
+
+void ReLULayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    for (int col_idx = 0; col_idx < row.Dim(); ++ col_idx) {
+      if (row(col_idx) < 0.0f) row(col_idx) = 0.0f;
+    }
+  }
+}
+
+void NormalizeLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  float D = in.NumCols();
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+
+    double squared_sum = row.VecVec(row);
+    float scale = static_cast<float>(sqrt(D / squared_sum));
+    row.Scale(scale);
+  }
+}
+
+
+NarrowLayer::NarrowLayer(): narrow_left_(-1), narrow_right_(-1) {}
+NarrowLayer::NarrowLayer(int narrow_left, int narrow_right):
+    narrow_left_(narrow_left), narrow_right_(narrow_right) {}
+
+void NarrowLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(narrow_left_ >= 0 && "NarrowLayer is not initialized");
+  if (in.NumRows() <= narrow_left_ + narrow_right_) {
+    // Do nothing if no enough rows to narrow
+    out->Resize(in.NumRows(), in.NumCols());
+    out->CopyFromMat(in);
+  } else {
+    out->Resize(
+        in.NumRows() - narrow_left_ - narrow_right_,
+        in.NumCols());
+    SubMatrix<float> narrow(
+        in,
+        narrow_left_,
+        in.NumRows() - narrow_left_ - narrow_right_,
+        0,
+        in.NumCols());
+    out->CopyFromMat(narrow);
+  }
+}
+
+Status NarrowLayer::Read(util::ReadableFile *fd) {
+  int32_t narrow_left = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_left));
+
+  int32_t narrow_right = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
+
+  narrow_right_ = narrow_right;
+  narrow_left_ = narrow_left;
+
+  return Status::OK();
+}
+
+
+Nnet::Nnet(): left_context_(0), right_context_(0) {
+}
+
+Status Nnet::ReadLayer(util::ReadableFile *fd) {
+  Matrix<float> W;
+  Vector<float> b;
+
+  // Read section name
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_LAYER_SECTION));
+
+  // Read layer type
+  int layer_type;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&layer_type));
+
+  // Read additional parameters and initialize layer
+  std::unique_ptr<Layer> layer = nullptr;
+  switch (layer_type) {
+  case Layer::kLinear:
+    layer = std::unique_ptr<Layer>(new LinearLayer());
+    break;
+  case Layer::kReLU:
+    layer = std::unique_ptr<Layer>(new ReLULayer());
+    break;
+  case Layer::kNormalize:
+    layer = std::unique_ptr<Layer>(new NormalizeLayer());
+    break;
+  case Layer::kSoftmax:
+    layer = std::unique_ptr<Layer>(new SoftmaxLayer());
+    break;
+  case Layer::kSplice:
+    layer = std::unique_ptr<Layer>(new SpliceLayer());
+    break;
+  case Layer::kBatchNorm:
+    layer = std::unique_ptr<Layer>(new BatchNormLayer());
+    break;
+  case Layer::kLogSoftmax:
+    layer = std::unique_ptr<Layer>(new LogSoftmaxLayer());
+    break;
+  case Layer::kNarrow:
+    layer = std::unique_ptr<Layer>(new NarrowLayer());
+    break;
+  default:
+    return Status::Corruption(util::Format(
+        "read_layer: unexpected layer type: {} ({})",
+        layer_type,
+        fd->filename()));
+  }
+
+  // Read the content of this layer (if have)
+  PK_CHECK_STATUS(layer->Read(fd));
+  layers_.emplace_back(std::move(layer));
+
+  return Status::OK();
+}
+
+Status Nnet::Read(util::ReadableFile *fd) {
+  // Read section name
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_SECTION));
+
+  int32_t left_context = 0, right_context = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&left_context));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&right_context));
+  left_context_ = left_context;
+  right_context_ = right_context;
+
+
+  int32_t num_layers;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet: unexpected num_layers: {} ({})",
+        num_layers,
+        fd->filename()));
+  }
+
+  // Read each layers
+  for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
+    PK_CHECK_STATUS(ReadLayer(fd));
+  }
+
+  return Status::OK();
+}
+
+void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
+  Matrix<float> layer_input, layer_output;
+  
+  layer_input.Resize(in.NumRows(), in.NumCols());
+  layer_input.CopyFromMat(in);
+  for (const std::unique_ptr<Layer> &layer : layers_) {
+    layer->Propagate(layer_input, &layer_output);
+    layer_input.Swap(&layer_output);
+  }
+
+  out->Resize(layer_input.NumRows(), layer_input.NumCols());
+  out->CopyFromMat(layer_input);
+}
+
+}  // namespace pocketkaldi
-- 
2.43.0


From d0176c6ef9f32e1528362fd03e879029a7646d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 21/38] fix: a configuration value that is not an integer must
 be an error

std::stoi threw out of Configuration (and through the C API).
---
 src/configuration.cc | 195 +++++++++++++++++++++++--------------------
 src/configuration.h  | 158 +++++++++++++++++++----------------
 2 files changed, 189 insertions(+), 164 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 6a05c20..3f64ef6 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -1,90 +1,105 @@
-// Created at 2017-4-19
-
-#include "configuration.h"
-
-#include <string>
-#include <vector>
-#include "util.h"
-#include "status.h"
-
-namespace pocketkaldi {
-
-const std::string Configuration::kDefaultString = "~_$$NOT_Ext_Val$$>-^-<@@_";
-
-Status Configuration::Read(const std::string &filename) {
-  util::ReadableFile fd;
-  std::string line;
-  std::vector<std::string> fields;
-  std::string key;
-  std::string value;
-  Status status;
-
-  filename_ = filename;
-  status = fd.Open(filename);
-  if (!status.ok()) return status;
-
-  // Read line by line
-  while (!fd.Eof() && fd.ReadLine(&line, &status)) {
-    line = util::Trim(line);
-
-    // Empty line and comment line
-    if (line.empty() || line.front() == '#') continue;
-
-    // Parse the line with key=value format
-    fields = util::Split(line, "=");
-    if (fields.size() != 2) {
-      return Status::Corruption(util::Format(
-          "Unexpected line in {}: {}",
-          filename_,
-          line));
-    }
-    key = util::Tolower(util::Trim(fields[0]));
-    value = util::Trim(fields[1]);
-    if (value.empty()) {
-      return Status::Corruption(util::Format(
-          "Value cound not be empty: {}",
-          filename_,
-          line));
-    }
-
-    table_[key] = value;
-  }
-
-  return status;
-}
-
-std::string Configuration::GetPathOrElse(
-    const std::string &key,
-    const std::string &default_val) const {
-  // Currently it is for *nix only
-  std::string path = GetStringOrElse(key, kDefaultString);
-  if (path == kDefaultString) return default_val;
-
-  // Return the path directly if it is a absolute path
-  if (path.front() == '/') return path; 
-
-  // Get the directory name of filename_
-  int pos = filename_.rfind('/');
-  if (pos == std::string::npos) return path; 
-  std::string directory(filename_.cbegin(), filename_.cbegin() + pos + 1);
-  return directory + path;
-}
-
-std::string Configuration::GetStringOrElse(
-    const std::string &key,
-    const std::string &default_val) const {
-  std::string lower_key = util::Tolower(key);
-  std::unordered_map<std::string, std::string>::const_iterator
-  it = table_.find(lower_key);
-  if (it == table_.end()) return default_val;
-
-  return it->second;
-}
-
-int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
-  std::string int_string = GetStringOrElse(key, kDefaultString);
-  if (int_string == kDefaultString) return default_val;
-  return std::stoi(int_string);
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-4-19
+
+#include "configuration.h"
+
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
+#include <string>
+#include <vector>
+#include "util.h"
+#include "status.h"
+
+namespace pocketkaldi {
+
+const std::string Configuration::kDefaultString = "~_$$NOT_Ext_Val$$>-^-<@@_";
+
+Status Configuration::Read(const std::string &filename) {
+  util::ReadableFile fd;
+  std::string line;
+  std::vector<std::string> fields;
+  std::string key;
+  std::string value;
+  Status status;
+
+  filename_ = filename;
+  status = fd.Open(filename);
+  if (!status.ok()) return status;
+
+  // Read line by line
+  while (!fd.Eof() && fd.ReadLine(&line, &status)) {
+    line = util::Trim(line);
+
+    // Empty line and comment line
+    if (line.empty() || line.front() == '#') continue;
+
+    // Parse the line with key=value format
+    fields = util::Split(line, "=");
+    if (fields.size() != 2) {
+      return Status::Corruption(util::Format(
+          "Unexpected line in {}: {}",
+          filename_,
+          line));
+    }
+    key = util::Tolower(util::Trim(fields[0]));
+    value = util::Trim(fields[1]);
+    if (value.empty()) {
+      return Status::Corruption(util::Format(
+          "Value cound not be empty: {}",
+          filename_,
+          line));
+    }
+
+    table_[key] = value;
+  }
+
+  return status;
+}
+
+std::string Configuration::GetPathOrElse(
+    const std::string &key,
+    const std::string &default_val) const {
+  // Currently it is for *nix only
+  std::string path = GetStringOrElse(key, kDefaultString);
+  if (path == kDefaultString) return default_val;
+
+  // Return the path directly if it is a absolute path
+  if (path.front() == '/') return path; 
+
+  // Get the directory name of filename_
+  int pos = filename_.rfind('/');
+  if (pos == std::string::npos) return path; 
+  std::string directory(filename_.cbegin(), filename_.cbegin() + pos + 1);
+  return directory + path;
+}
+
+std::string Configuration::GetStringOrElse(
+    const std::string &key,
+    const std::string &default_val) const {
+  std::string lower_key = util::Tolower(key);
+  std::unordered_map<std::string, std::string>::const_iterator
+  it = table_.find(lower_key);
+  if (it == table_.end()) return default_val;
+
+  return it->second;
+}
+
+int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
+  std::string int_string = GetStringOrElse(key, kDefaultString);
+  if (int_string == kDefaultString) return default_val;
+  int val = default_val;
+  return ParseInteger(int_string, &val) ? val : default_val;
+}
+
+bool Configuration::ParseInteger(const std::string &str, int *val) {
+  char *end = nullptr;
+  errno = 0;
+  long long_val = strtol(str.c_str(), &end, 10);
+  if (end == str.c_str() || *end != '\0' || errno == ERANGE) return false;
+  if (long_val < INT_MIN || long_val > INT_MAX) return false;
+
+  *val = static_cast<int>(long_val);
+  return true;
+}
+
+}  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..fe8d9dd 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -1,75 +1,85 @@
-// Created at 2017-4-19
-
-#ifndef POCKETKALDI_CONFIGURATION_H_
-#define POCKETKALDI_CONFIGURATION_H_
-
-#include <string>
-#include <unordered_map>
-#include <limits.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-// Configuration is a class to read configuration files for pocketkaldi.
-class Configuration {
- public:
-  // Read configuration from filename. If success, `status->ok` will be true
-  // Otherwise, status->message will contain error message
-  Status Read(const std::string &filename);
-
-  // Get a path from configuration file. If the path is a relative path, return
-  // a path combines path to configuatin file and path itself. If the key not
-  // exist, returns `default`
-  std::string GetPathOrElse(
-      const std::string &key,
-      const std::string &default_val) const;
-
-  // Get a different type of value from configuration file. If the key not
-  // exist, returns `default_val`
-  std::string GetStringOrElse(
-      const std::string &key,
-      const std::string &default_val) const;
-  int GetIntegerOrElse(const std::string &key, int default_val) const;
-
-  // Return Status version
-  Status GetPath(const std::string &key, std::string *val) const {
-    std::string path = GetPathOrElse(key, kDefaultString);
-    if (path == kDefaultString) return KeyNotFound(key);
-    *val = path;
-    return Status::OK();
-  }
-  Status GetString(const std::string &key, std::string *val) const {
-    std::string path = GetStringOrElse(key, kDefaultString);
-    if (path == kDefaultString) return KeyNotFound(key);
-    *val = path;
-    return Status::OK();
-  }
-  Status GetInteger(const std::string &key, int *val) const {
-    int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
-    *val = int_val;
-    return Status::OK();
-  }
-
-  // Get filename
-  const std::string &filename() const {
-    return filename_;
-  }
-
- private:
-  static const std::string kDefaultString;
-  
-  std::string filename_;
-  std::unordered_map<std::string, std::string> table_;
-
-  Status KeyNotFound(const std::string &key) const {
-    return Status::Corruption(util::Format(
-        "Unable to find key '{}' in '{}'",
-        key,
-        filename()));
-  }
-};
-
-}  // namespace pocketkaldi
-
+// Created at 2017-4-19
+
+#ifndef POCKETKALDI_CONFIGURATION_H_
+#define POCKETKALDI_CONFIGURATION_H_
+
+#include <string>
+#include <unordered_map>
+#include <limits.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+// Configuration is a class to read configuration files for pocketkaldi.
+class Configuration {
+ public:
+  // Read configuration from filename. If success, `status->ok` will be true
+  // Otherwise, status->message will contain error message
+  Status Read(const std::string &filename);
+
+  // Get a path from configuration file. If the path is a relative path, return
+  // a path combines path to configuatin file and path itself. If the key not
+  // exist, returns `default`
+  std::string GetPathOrElse(
+      const std::string &key,
+      const std::string &default_val) const;
+
+  // Get a different type of value from configuration file. If the key not
+  // exist (or the value is not an integer for GetIntegerOrElse), returns
+  // `default_val`
+  std::string GetStringOrElse(
+      const std::string &key,
+      const std::string &default_val) const;
+  int GetIntegerOrElse(const std::string &key, int default_val) const;
+
+  // Return Status version
+  Status GetPath(const std::string &key, std::string *val) const {
+    std::string path = GetPathOrElse(key, kDefaultString);
+    if (path == kDefaultString) return KeyNotFound(key);
+    *val = path;
+    return Status::OK();
+  }
+  Status GetString(const std::string &key, std::string *val) const {
+    std::string path = GetStringOrElse(key, kDefaultString);
+    if (path == kDefaultString) return KeyNotFound(key);
+    *val = path;
+    return Status::OK();
+  }
+  Status GetInteger(const std::string &key, int *val) const {
+    std::string int_string = GetStringOrElse(key, kDefaultString);
+    if (int_string == kDefaultString) return KeyNotFound(key);
+    if (!ParseInteger(int_string, val)) {
+      return Status::Corruption(util::Format(
+          "Integer expected for key '{}' in '{}', but '{}' found",
+          key,
+          filename(),
+          int_string));
+    }
+    return Status::OK();
+  }
+
+  // Get filename
+  const std::string &filename() const {
+    return filename_;
+  }
+
+ private:
+  static const std::string kDefaultString;
+  
+  std::string filename_;
+  std::unordered_map<std::string, std::string> table_;
+
+  // Parse a decimal integer. Returns false if `str` is not an integer
+  static bool ParseInteger(const std::string &str, int *val);
+
+  Status KeyNotFound(const std::string &key) const {
+    return Status::Corruption(util::Format(
+        "Unable to find key '{}' in '{}'",
+        key,
+        filename()));
+  }
+};
+
+}  // namespace pocketkaldi
+
 #endif  // POCKETKALDI_CONFIGURATION_H_
\ No newline at end of file
-- 
2.43.0


From 8bbeb6e6ed5d96b7740db986da2d41f7b4d24a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 22/38] fix: Configuration must refuse a line ending in a
 second '='

Split() drops a trailing empty field, so 'key=value=' was accepted.
---
 src/configuration.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 3f64ef6..e407fc7 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -35,7 +35,7 @@ Status Configuration::Read(const std::string &filename) {
 
     // Parse the line with key=value format
     fields = util::Split(line, "=");
-    if (fields.size() != 2) {
+    if (fields.size() != 2 || line.back() == '=') {
       return Status::Corruption(util::Format(
           "Unexpected line in {}: {}",
           filename_,
-- 
2.43.0


From 33464e9b2ef79a2ac17750a8b074da691a509566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 23/38] fix: Vector move assignment must release the previous
 data

---
 src/vector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 5af7960..f38588c 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,9 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+
+  Destroy();
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From c297149bbd70625259cfce92e487de0d419db421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:26 +0000
Subject: [PATCH 24/38] fix: keep softmax and log-softmax finite for large
 inputs

---
 src/vector.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index f38588c..87ff043 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -98,8 +98,14 @@ template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum, otherwise exp overflows for large elements
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -113,11 +119,17 @@ template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum, otherwise exp overflows for large elements
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
-  Real logsum = log(sum);
+  Real logsum = max + log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
     (*this)(i) -= logsum;
-- 
2.43.0


From 80cbed0cbe04e9794590b1981418797ffc683e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 25/38] fix: refuse a matrix whose number of cells overflows

---
 src/matrix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 1739cc9..f7f6b31 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,7 +169,8 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
-  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
+      (num_cols > 0 && num_rows > std::numeric_limits<int>::max() / num_cols)) {
     return Status::Corruption(util::Format(
         "Matrix::Read: unexpected size {} * {}: {}",
         num_rows,
-- 
2.43.0


From 75517b55262bf80f40f9efece54c56957ff1b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 26/38] fix: refuse negative contexts and a non-positive chunk
 size

---
 src/am.cc | 340 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 174 insertions(+), 166 deletions(-)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..dcb4138 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -1,166 +1,174 @@
-// Created at 2017-03-22
-
-#include "am.h"
-
-#include "status.h"
-#include "matrix.h"
-#include "math.h"
-
-namespace pocketkaldi {
-
-AcousticModel::Instance::Instance(): started(false) {}
-
-AcousticModel::AcousticModel() :
-    left_context_(0),
-    right_context_(0),
-    num_pdfs_(0),
-    chunk_size_(0) {
-}
-
-AcousticModel::~AcousticModel() {
-  left_context_ = 0;
-  right_context_ = 0;
-  num_pdfs_ = 0;
-}
-
-Status AcousticModel::Read(const Configuration &conf) {
-  Status status;
-
-  // Read nnet
-  std::string nnet_filename;
-  status = conf.GetPath("nnet", &nnet_filename);
-  if (!status.ok()) return status;
-
-  util::ReadableFile fd;
-  PK_CHECK_STATUS(fd.Open(nnet_filename));
-  PK_CHECK_STATUS(nnet_.Read(&fd));
-  fd.Close();
-
-  // Read prior
-  std::string prior_filename;
-  PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
-  PK_CHECK_STATUS(fd.Open(prior_filename));
-  PK_CHECK_STATUS(log_prior_.Read(&fd));
-  log_prior_.ApplyLog();
-  fd.Close();
-
-  // Read left and right context
-  PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
-  PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
-  PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
-
-  // Read tid2pdf_
-  std::string tid2pdf_filename;
-  status = conf.GetInteger("num_pdfs", &num_pdfs_);
-  if (!status.ok()) return status;
-  status = conf.GetPath("tid2pdf", &tid2pdf_filename);
-  if (!status.ok()) return status;
-  status = fd.Open(tid2pdf_filename);
-  if (!status.ok()) return status;
-  status = tid2pdf_.Read(&fd);
-  if (!status.ok()) return status;
-
-  return Status::OK();
-}
-
-void AcousticModel::AppendFrame(Instance *inst,
-                                const VectorBase<float> &frame_feat) const {
-  Vector<float> frame(frame_feat.Dim());
-  frame.CopyFromVec(frame_feat);
-  inst->feats_buffer.emplace_back(std::move(frame));
-}
-
-bool AcousticModel::BatchAvailable(Instance *inst) const {
-  int frames_available = inst->feats_buffer.size();
-  if (frames_available >= left_context_ + right_context_ + chunk_size_) {
-    return true;
-  } else {
-    return false;
-  }
-}
-
-void AcousticModel::ComputeBatch(Instance *inst,
-                                 int batch_size,
-                                 Matrix<float> *log_prob) const {
-  if (batch_size == kBatchSizeAll) {
-    batch_size = inst->feats_buffer.size() - left_context_ - right_context_;
-    assert(batch_size > 0 && "ComputeBatch: insufficient data");
-  }
-  if (batch_size == 0) {
-    log_prob->Resize(0, log_prob->NumCols());
-    return;
-  }
-
-  // Prepare input matrix
-  int batch_input_size = batch_size + left_context_ + right_context_;
-  assert(inst->feats_buffer.size() >= batch_input_size &&
-         "ComputeBatch: insufficient data");
-  int feat_dim = inst->feats_buffer[0].Dim();
-  Matrix<float> batch_input(batch_input_size, feat_dim);
-  for (int i = 0; i < batch_input_size; ++i) {
-    batch_input.Row(i).CopyFromVec(inst->feats_buffer[i]);
-  }
-
-  // Propogate through nn
-  nnet_.Propagate(batch_input, log_prob);
-  assert(log_prob->NumRows() == batch_size && "invalid nnet");
-
-  // Compute log-likelihood
-  for (int r = 0; r < log_prob->NumRows(); ++r) {
-    SubVector<float> row = log_prob->Row(r);
-    row.AddVec(-1.0f, log_prior_);
-  }
-}
-
-void AcousticModel::Process(Instance *inst,
-                            const VectorBase<float> &frame_feat,
-                            Matrix<float> *log_prob) const {
-  // Add left padding frames
-  if (!inst->started) {
-    for (int i = 0; i < left_context_; ++i) {
-      AppendFrame(inst, frame_feat);
-    }
-    inst->started = true;
-  }
-
-  // Add current frame
-  AppendFrame(inst, frame_feat);
-
-  
-  if (!BatchAvailable(inst)) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  // A batch of frames is available
-  ComputeBatch(inst, chunk_size_, log_prob);
-
-  // Remove useless frames
-  for (int i = 0; i < chunk_size_; ++i) {
-    inst->feats_buffer.pop_front();
-  }
-}
-
-void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
-  // Do nothing if feature buffer is empty
-  if (inst->feats_buffer.empty()) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  // Add right padding frames
-  const VectorBase<float> &last_frame = inst->feats_buffer.back();
-  for (int i = 0; i < right_context_; ++i) {
-    AppendFrame(inst, last_frame);
-  }
-
-  // Do nothing when no enough frames to compute
-  if (inst->feats_buffer.size() <= left_context_ + right_context_) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  ComputeBatch(inst, kBatchSizeAll, log_prob);
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-03-22
+
+#include "am.h"
+
+#include "status.h"
+#include "matrix.h"
+#include "math.h"
+
+namespace pocketkaldi {
+
+AcousticModel::Instance::Instance(): started(false) {}
+
+AcousticModel::AcousticModel() :
+    left_context_(0),
+    right_context_(0),
+    num_pdfs_(0),
+    chunk_size_(0) {
+}
+
+AcousticModel::~AcousticModel() {
+  left_context_ = 0;
+  right_context_ = 0;
+  num_pdfs_ = 0;
+}
+
+Status AcousticModel::Read(const Configuration &conf) {
+  Status status;
+
+  // Read nnet
+  std::string nnet_filename;
+  status = conf.GetPath("nnet", &nnet_filename);
+  if (!status.ok()) return status;
+
+  util::ReadableFile fd;
+  PK_CHECK_STATUS(fd.Open(nnet_filename));
+  PK_CHECK_STATUS(nnet_.Read(&fd));
+  fd.Close();
+
+  // Read prior
+  std::string prior_filename;
+  PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
+  PK_CHECK_STATUS(fd.Open(prior_filename));
+  PK_CHECK_STATUS(log_prior_.Read(&fd));
+  log_prior_.ApplyLog();
+  fd.Close();
+
+  // Read left and right context
+  PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
+  PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
+  PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
+  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ <= 0) {
+    return Status::Corruption(util::Format(
+        "Invalid left_context, right_context or chunk_size in {}: {}, {}, {}",
+        conf.filename(),
+        left_context_,
+        right_context_,
+        chunk_size_));
+  }
+
+  // Read tid2pdf_
+  std::string tid2pdf_filename;
+  status = conf.GetInteger("num_pdfs", &num_pdfs_);
+  if (!status.ok()) return status;
+  status = conf.GetPath("tid2pdf", &tid2pdf_filename);
+  if (!status.ok()) return status;
+  status = fd.Open(tid2pdf_filename);
+  if (!status.ok()) return status;
+  status = tid2pdf_.Read(&fd);
+  if (!status.ok()) return status;
+
+  return Status::OK();
+}
+
+void AcousticModel::AppendFrame(Instance *inst,
+                                const VectorBase<float> &frame_feat) const {
+  Vector<float> frame(frame_feat.Dim());
+  frame.CopyFromVec(frame_feat);
+  inst->feats_buffer.emplace_back(std::move(frame));
+}
+
+bool AcousticModel::BatchAvailable(Instance *inst) const {
+  int frames_available = inst->feats_buffer.size();
+  if (frames_available >= left_context_ + right_context_ + chunk_size_) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
+void AcousticModel::ComputeBatch(Instance *inst,
+                                 int batch_size,
+                                 Matrix<float> *log_prob) const {
+  if (batch_size == kBatchSizeAll) {
+    batch_size = inst->feats_buffer.size() - left_context_ - right_context_;
+    assert(batch_size > 0 && "ComputeBatch: insufficient data");
+  }
+  if (batch_size == 0) {
+    log_prob->Resize(0, log_prob->NumCols());
+    return;
+  }
+
+  // Prepare input matrix
+  int batch_input_size = batch_size + left_context_ + right_context_;
+  assert(inst->feats_buffer.size() >= batch_input_size &&
+         "ComputeBatch: insufficient data");
+  int feat_dim = inst->feats_buffer[0].Dim();
+  Matrix<float> batch_input(batch_input_size, feat_dim);
+  for (int i = 0; i < batch_input_size; ++i) {
+    batch_input.Row(i).CopyFromVec(inst->feats_buffer[i]);
+  }
+
+  // Propogate through nn
+  nnet_.Propagate(batch_input, log_prob);
+  assert(log_prob->NumRows() == batch_size && "invalid nnet");
+
+  // Compute log-likelihood
+  for (int r = 0; r < log_prob->NumRows(); ++r) {
+    SubVector<float> row = log_prob->Row(r);
+    row.AddVec(-1.0f, log_prior_);
+  }
+}
+
+void AcousticModel::Process(Instance *inst,
+                            const VectorBase<float> &frame_feat,
+                            Matrix<float> *log_prob) const {
+  // Add left padding frames
+  if (!inst->started) {
+    for (int i = 0; i < left_context_; ++i) {
+      AppendFrame(inst, frame_feat);
+    }
+    inst->started = true;
+  }
+
+  // Add current frame
+  AppendFrame(inst, frame_feat);
+
+  
+  if (!BatchAvailable(inst)) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  // A batch of frames is available
+  ComputeBatch(inst, chunk_size_, log_prob);
+
+  // Remove useless frames
+  for (int i = 0; i < chunk_size_; ++i) {
+    inst->feats_buffer.pop_front();
+  }
+}
+
+void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
+  // Do nothing if feature buffer is empty
+  if (inst->feats_buffer.empty()) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  // Add right padding frames
+  const VectorBase<float> &last_frame = inst->feats_buffer.back();
+  for (int i = 0; i < right_context_; ++i) {
+    AppendFrame(inst, last_frame);
+  }
+
+  // Do nothing when no enough frames to compute
+  if (inst->feats_buffer.size() <= left_context_ + right_context_) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  ComputeBatch(inst, kBatchSizeAll, log_prob);
+}
+
+}  // namespace pocketkaldi
-- 
2.43.0


From 08df7e5be7970db06dfe6fa3b01b77eee7056e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 27/38] fix: refuse a prior with negative or undefined
 probabilities

---
 src/am.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index dcb4138..166980c 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -41,6 +41,14 @@ Status AcousticModel::Read(const Configuration &conf) {
   PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
   PK_CHECK_STATUS(fd.Open(prior_filename));
   PK_CHECK_STATUS(log_prior_.Read(&fd));
+  for (int i = 0; i < log_prior_.Dim(); ++i) {
+    if (!(log_prior_(i) >= 0.0f)) {
+      return Status::Corruption(util::Format(
+          "Invalid prior probability in {}: {}",
+          prior_filename,
+          log_prior_(i)));
+    }
+  }
   log_prior_.ApplyLog();
   fd.Close();
 
-- 
2.43.0


From def237094da55523c9d074a9216bcb7a9a8600a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 28/38] fix: log to stderr so that warnings do not mix with the
 results on stdout

---
 src/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.h b/src/util.h
index 2fe64df..b0e98ec 100644
--- a/src/util.h
+++ b/src/util.h
@@ -36,8 +36,8 @@
     Status st = (st_exp);\
     if (!st.ok()) return st;}
 
-#define PK_INFO(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
-#define PK_WARN(msg) std::cout << "WARN: " << __FILE__ << ": " \
+#define PK_INFO(msg) std::cerr << __FILE__ << ": " << (msg) << std::endl;
+#define PK_WARN(msg) std::cerr << "WARN: " << __FILE__ << ": " \
                                << (msg) << std::endl;
 // #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
 #define PK_DEBUG(msg)
-- 
2.43.0


From 24048ded3cfc60a28e8e7cd67fa656ce86c1dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 29/38] fix: restore the CRLF line endings of the files the
 fixes touched

---
 src/am.cc            | 364 +++++++++---------
 src/ce_stt.cc        | 756 ++++++++++++++++++-------------------
 src/configuration.cc | 210 +++++------
 src/configuration.h  | 168 ++++-----
 src/fbank.cc         | 640 ++++++++++++++++----------------
 src/fst.cc           | 672 ++++++++++++++++-----------------
 src/hashtable.h      | 388 +++++++++----------
 src/matrix.cc        | 864 +++++++++++++++++++++----------------------
 src/nnet.cc          | 630 +++++++++++++++----------------
 src/pool.h           | 508 ++++++++++++-------------
 src/symbol_table.cc  | 146 ++++----
 src/util.cc          | 332 ++++++++---------
 src/util.h           | 366 +++++++++---------
 src/vector.cc        | 652 ++++++++++++++++----------------
 14 files changed, 3348 insertions(+), 3348 deletions(-)

diff --git a/src/am.cc b/src/am.cc
index 166980c..adcaca4 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -1,182 +1,182 @@
-// Created at 2017-03-22
-
-#include "am.h"
-
-#include "status.h"
-#include "matrix.h"
-#include "math.h"
-
-namespace pocketkaldi {
-
-AcousticModel::Instance::Instance(): started(false) {}
-
-AcousticModel::AcousticModel() :
-    left_context_(0),
-    right_context_(0),
-    num_pdfs_(0),
-    chunk_size_(0) {
-}
-
-AcousticModel::~AcousticModel() {
-  left_context_ = 0;
-  right_context_ = 0;
-  num_pdfs_ = 0;
-}
-
-Status AcousticModel::Read(const Configuration &conf) {
-  Status status;
-
-  // Read nnet
-  std::string nnet_filename;
-  status = conf.GetPath("nnet", &nnet_filename);
-  if (!status.ok()) return status;
-
-  util::ReadableFile fd;
-  PK_CHECK_STATUS(fd.Open(nnet_filename));
-  PK_CHECK_STATUS(nnet_.Read(&fd));
-  fd.Close();
-
-  // Read prior
-  std::string prior_filename;
-  PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
-  PK_CHECK_STATUS(fd.Open(prior_filename));
-  PK_CHECK_STATUS(log_prior_.Read(&fd));
-  for (int i = 0; i < log_prior_.Dim(); ++i) {
-    if (!(log_prior_(i) >= 0.0f)) {
-      return Status::Corruption(util::Format(
-          "Invalid prior probability in {}: {}",
-          prior_filename,
-          log_prior_(i)));
-    }
-  }
-  log_prior_.ApplyLog();
-  fd.Close();
-
-  // Read left and right context
-  PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
-  PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
-  PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
-  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ <= 0) {
-    return Status::Corruption(util::Format(
-        "Invalid left_context, right_context or chunk_size in {}: {}, {}, {}",
-        conf.filename(),
-        left_context_,
-        right_context_,
-        chunk_size_));
-  }
-
-  // Read tid2pdf_
-  std::string tid2pdf_filename;
-  status = conf.GetInteger("num_pdfs", &num_pdfs_);
-  if (!status.ok()) return status;
-  status = conf.GetPath("tid2pdf", &tid2pdf_filename);
-  if (!status.ok()) return status;
-  status = fd.Open(tid2pdf_filename);
-  if (!status.ok()) return status;
-  status = tid2pdf_.Read(&fd);
-  if (!status.ok()) return status;
-
-  return Status::OK();
-}
-
-void AcousticModel::AppendFrame(Instance *inst,
-                                const VectorBase<float> &frame_feat) const {
-  Vector<float> frame(frame_feat.Dim());
-  frame.CopyFromVec(frame_feat);
-  inst->feats_buffer.emplace_back(std::move(frame));
-}
-
-bool AcousticModel::BatchAvailable(Instance *inst) const {
-  int frames_available = inst->feats_buffer.size();
-  if (frames_available >= left_context_ + right_context_ + chunk_size_) {
-    return true;
-  } else {
-    return false;
-  }
-}
-
-void AcousticModel::ComputeBatch(Instance *inst,
-                                 int batch_size,
-                                 Matrix<float> *log_prob) const {
-  if (batch_size == kBatchSizeAll) {
-    batch_size = inst->feats_buffer.size() - left_context_ - right_context_;
-    assert(batch_size > 0 && "ComputeBatch: insufficient data");
-  }
-  if (batch_size == 0) {
-    log_prob->Resize(0, log_prob->NumCols());
-    return;
-  }
-
-  // Prepare input matrix
-  int batch_input_size = batch_size + left_context_ + right_context_;
-  assert(inst->feats_buffer.size() >= batch_input_size &&
-         "ComputeBatch: insufficient data");
-  int feat_dim = inst->feats_buffer[0].Dim();
-  Matrix<float> batch_input(batch_input_size, feat_dim);
-  for (int i = 0; i < batch_input_size; ++i) {
-    batch_input.Row(i).CopyFromVec(inst->feats_buffer[i]);
-  }
-
-  // Propogate through nn
-  nnet_.Propagate(batch_input, log_prob);
-  assert(log_prob->NumRows() == batch_size && "invalid nnet");
-
-  // Compute log-likelihood
-  for (int r = 0; r < log_prob->NumRows(); ++r) {
-    SubVector<float> row = log_prob->Row(r);
-    row.AddVec(-1.0f, log_prior_);
-  }
-}
-
-void AcousticModel::Process(Instance *inst,
-                            const VectorBase<float> &frame_feat,
-                            Matrix<float> *log_prob) const {
-  // Add left padding frames
-  if (!inst->started) {
-    for (int i = 0; i < left_context_; ++i) {
-      AppendFrame(inst, frame_feat);
-    }
-    inst->started = true;
-  }
-
-  // Add current frame
-  AppendFrame(inst, frame_feat);
-
-  
-  if (!BatchAvailable(inst)) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  // A batch of frames is available
-  ComputeBatch(inst, chunk_size_, log_prob);
-
-  // Remove useless frames
-  for (int i = 0; i < chunk_size_; ++i) {
-    inst->feats_buffer.pop_front();
-  }
-}
-
-void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
-  // Do nothing if feature buffer is empty
-  if (inst->feats_buffer.empty()) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  // Add right padding frames
-  const VectorBase<float> &last_frame = inst->feats_buffer.back();
-  for (int i = 0; i < right_context_; ++i) {
-    AppendFrame(inst, last_frame);
-  }
-
-  // Do nothing when no enough frames to compute
-  if (inst->feats_buffer.size() <= left_context_ + right_context_) {
-    log_prob->Resize(0, 0);
-    return;
-  }
-
-  ComputeBatch(inst, kBatchSizeAll, log_prob);
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-03-22
+
+#include "am.h"
+
+#include "status.h"
+#include "matrix.h"
+#include "math.h"
+
+namespace pocketkaldi {
+
+AcousticModel::Instance::Instance(): started(false) {}
+
+AcousticModel::AcousticModel() :
+    left_context_(0),
+    right_context_(0),
+    num_pdfs_(0),
+    chunk_size_(0) {
+}
+
+AcousticModel::~AcousticModel() {
+  left_context_ = 0;
+  right_context_ = 0;
+  num_pdfs_ = 0;
+}
+
+Status AcousticModel::Read(const Configuration &conf) {
+  Status status;
+
+  // Read nnet
+  std::string nnet_filename;
+  status = conf.GetPath("nnet", &nnet_filename);
+  if (!status.ok()) return status;
+
+  util::ReadableFile fd;
+  PK_CHECK_STATUS(fd.Open(nnet_filename));
+  PK_CHECK_STATUS(nnet_.Read(&fd));
+  fd.Close();
+
+  // Read prior
+  std::string prior_filename;
+  PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
+  PK_CHECK_STATUS(fd.Open(prior_filename));
+  PK_CHECK_STATUS(log_prior_.Read(&fd));
+  for (int i = 0; i < log_prior_.Dim(); ++i) {
+    if (!(log_prior_(i) >= 0.0f)) {
+      return Status::Corruption(util::Format(
+          "Invalid prior probability in {}: {}",
+          prior_filename,
+          log_prior_(i)));
+    }
+  }
+  log_prior_.ApplyLog();
+  fd.Close();
+
+  // Read left and right context
+  PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
+  PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
+  PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
+  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ <= 0) {
+    return Status::Corruption(util::Format(
+        "Invalid left_context, right_context or chunk_size in {}: {}, {}, {}",
+        conf.filename(),
+        left_context_,
+        right_context_,
+        chunk_size_));
+  }
+
+  // Read tid2pdf_
+  std::string tid2pdf_filename;
+  status = conf.GetInteger("num_pdfs", &num_pdfs_);
+  if (!status.ok()) return status;
+  status = conf.GetPath("tid2pdf", &tid2pdf_filename);
+  if (!status.ok()) return status;
+  status = fd.Open(tid2pdf_filename);
+  if (!status.ok()) return status;
+  status = tid2pdf_.Read(&fd);
+  if (!status.ok()) return status;
+
+  return Status::OK();
+}
+
+void AcousticModel::AppendFrame(Instance *inst,
+                                const VectorBase<float> &frame_feat) const {
+  Vector<float> frame(frame_feat.Dim());
+  frame.CopyFromVec(frame_feat);
+  inst->feats_buffer.emplace_back(std::move(frame));
+}
+
+bool AcousticModel::BatchAvailable(Instance *inst) const {
+  int frames_available = inst->feats_buffer.size();
+  if (frames_available >= left_context_ + right_context_ + chunk_size_) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
+void AcousticModel::ComputeBatch(Instance *inst,
+                                 int batch_size,
+                                 Matrix<float> *log_prob) const {
+  if (batch_size == kBatchSizeAll) {
+    batch_size = inst->feats_buffer.size() - left_context_ - right_context_;
+    assert(batch_size > 0 && "ComputeBatch: insufficient data");
+  }
+  if (batch_size == 0) {
+    log_prob->Resize(0, log_prob->NumCols());
+    return;
+  }
+
+  // Prepare input matrix
+  int batch_input_size = batch_size + left_context_ + right_context_;
+  assert(inst->feats_buffer.size() >= batch_input_size &&
+         "ComputeBatch: insufficient data");
+  int feat_dim = inst->feats_buffer[0].Dim();
+  Matrix<float> batch_input(batch_input_size, feat_dim);
+  for (int i = 0; i < batch_input_size; ++i) {
+    batch_input.Row(i).CopyFromVec(inst->feats_buffer[i]);
+  }
+
+  // Propogate through nn
+  nnet_.Propagate(batch_input, log_prob);
+  assert(log_prob->NumRows() == batch_size && "invalid nnet");
+
+  // Compute log-likelihood
+  for (int r = 0; r < log_prob->NumRows(); ++r) {
+    SubVector<float> row = log_prob->Row(r);
+    row.AddVec(-1.0f, log_prior_);
+  }
+}
+
+void AcousticModel::Process(Instance *inst,
+                            const VectorBase<float> &frame_feat,
+                            Matrix<float> *log_prob) const {
+  // Add left padding frames
+  if (!inst->started) {
+    for (int i = 0; i < left_context_; ++i) {
+      AppendFrame(inst, frame_feat);
+    }
+    inst->started = true;
+  }
+
+  // Add current frame
+  AppendFrame(inst, frame_feat);
+
+  
+  if (!BatchAvailable(inst)) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  // A batch of frames is available
+  ComputeBatch(inst, chunk_size_, log_prob);
+
+  // Remove useless frames
+  for (int i = 0; i < chunk_size_; ++i) {
+    inst->feats_buffer.pop_front();
+  }
+}
+
+void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
+  // Do nothing if feature buffer is empty
+  if (inst->feats_buffer.empty()) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  // Add right padding frames
+  const VectorBase<float> &last_frame = inst->feats_buffer.back();
+  for (int i = 0; i < right_context_; ++i) {
+    AppendFrame(inst, last_frame);
+  }
+
+  // Do nothing when no enough frames to compute
+  if (inst->feats_buffer.size() <= left_context_ + right_context_) {
+    log_prob->Resize(0, 0);
+    return;
+  }
+
+  ComputeBatch(inst, kBatchSizeAll, log_prob);
+}
+
+}  // namespace pocketkaldi
diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index ae9095b..740c967 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -1,378 +1,378 @@
-// Created at 2017-03-29
-
-#include "ce_stt.h"
-
-#include <stdlib.h>
-#include <math.h>
-#include <time.h>
-#include <string.h>
-#include <algorithm>
-#include <string>
-#include "am.h"
-#include "cmvn.h"
-#include "decoder.h"
-#include "fbank.h"
-#include "fst.h"
-#include "nnet.h"
-#include "symbol_table.h"
-#include "pcm_reader.h"
-#include "configuration.h"
-#include "util.h"
-
-using pocketkaldi::Decoder;
-using pocketkaldi::Fbank;
-using pocketkaldi::CMVN;
-using pocketkaldi::Status;
-using pocketkaldi::Configuration;
-using pocketkaldi::Vector;
-using pocketkaldi::VectorBase;
-using pocketkaldi::Matrix;
-using pocketkaldi::SubVector;
-using pocketkaldi::AcousticModel;
-using pocketkaldi::SymbolTable;
-using pocketkaldi::LmFst;
-using pocketkaldi::DeltaLmFst;
-using pocketkaldi::util::Format;
-using pocketkaldi::util::ReadableFile;
-using pocketkaldi::ReadPcmHeader;
-using pocketkaldi::WaveReader;
-
-
-typedef struct ce_stt_t {
-  fst::ConstFst<fst::StdArc> *fst;
-  pocketkaldi::LmFst *large_lm_fst;
-  pocketkaldi::DeltaLmFst *delta_lm_fst;
-  pocketkaldi::Vector<float> *original_lm;
-  pocketkaldi::AcousticModel *am;
-  pocketkaldi::Fbank *fbank;
-  pocketkaldi::SymbolTable *symbol_table;
-} ce_stt_t;
-
-// The internal version of an utterance. It stores the intermediate state in
-// decoding.
-typedef struct ce_utt_internal_t {
-  const ce_stt_t *recognizer;
-
-  WaveReader wave_reader;
-  Fbank::Instance fbank_inst;
-  AcousticModel::Instance am_inst;
-  std::unique_ptr<Decoder> decoder;
-} ce_utt_internal_t;
-
-namespace {
-
-// Buffer for last_error()
-char error_message[2048] = "";
-
-// Read symbol table
-Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
-  std::string filename = conf.GetPathOrElse("symbol_table", "");
-  if (filename == "") {
-    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
-        "Unable to find key 'symbol_table' in {}",
-        filename));
-  }
-  self->symbol_table = new SymbolTable();
-  PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
-
-  return Status::OK();
-}
-
-// Read and initialize delta lm fst
-Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
-  std::string large_lm_file = conf.GetPathOrElse("large_lm", "");
-
-  // If delta_lm_fst is not enables
-  if (large_lm_file == "") return Status::OK();
-
-  // Origianl LM in HCLG
-  std::string original_lm_file = conf.GetPathOrElse("original_lm", "");
-  if (original_lm_file == "") {
-    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
-        "Unable to find key 'original_lm' in {}",
-        original_lm_file));
-  }
-
-  pocketkaldi::util::ReadableFile fd_original_lm;
-  PK_CHECK_STATUS(fd_original_lm.Open(original_lm_file));
-  self->original_lm = new Vector<float>();
-  PK_CHECK_STATUS(self->original_lm->Read(&fd_original_lm));
-
-  // Large LM
-  pocketkaldi::util::ReadableFile fd_large_lm;
-  PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
-  self->large_lm_fst = new LmFst();
-  PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
-  self->large_lm_fst->InitBucket0();
-  
-  // Build DeltaLmFst
-  assert(self->symbol_table != nullptr);
-  self->delta_lm_fst = new DeltaLmFst(self->original_lm,
-                                      self->large_lm_fst,
-                                      self->symbol_table);
-
-  return Status::OK();
-}
-
-// Reads the HCLG fst
-Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
-  std::string filename = conf.GetPathOrElse("fst", "");
-  if (filename == "") {
-    return Status::Corruption(
-        Format("Unable to find key 'fst' in {}", filename));
-  }
-  fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
-  if (!fst) {
-    return Status::IOError(filename);
-  }
-  self->fst = fst;
-
-  return Status::OK();
-}
-
-// Checks if parameter utt is correct. On success return 0, on failed return
-// CE_STT_FAILED and copy error string into error_message
-int32_t CheckParamUtt(ce_utt_t *utt) {
-  if (utt == nullptr) {
-    pasco_strlcpy(error_message, "utt is NULL", sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-  if (utt->internal == nullptr) {
-    pasco_strlcpy(error_message, "utt->internal is NULL", sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-
-  const ce_stt_t *recognizer = utt->internal->recognizer;
-  if (recognizer == nullptr) {
-    pasco_strlcpy(error_message,
-                  "utt->internal->recognizer is NULL", 
-                  sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-
-  return 0;
-}
-
-// Get the hypothesis from best path in pattice and convert it into text format.
-// Then store into utt->hyp
-void StoreHypText(ce_utt_t *utt) {
-  PK_DEBUG("StoreHypText()");
-
-  // Decoding
-  const ce_stt_t *recognizer = utt->internal->recognizer;
-  Decoder *decoder = utt->internal->decoder.get();
-  Decoder::Hypothesis hyp = decoder->BestPath();
-
-  // Get final result
-  std::string text;
-  std::vector<int> words = hyp.words();
-  std::reverse(words.begin(), words.end());
-  if (!hyp.words().empty()) {
-    for (int word : words) {
-      // Append the word into hyp
-      text += recognizer->symbol_table->Get(word);
-      text += ' ';
-    }
-
-    // Copy hyp to utt->hyp
-    delete[] utt->hyp;
-    utt->hyp = new char[text.size()];
-
-    // pasco_strlcpy will fill the last space as '\0' automatically
-    pasco_strlcpy(utt->hyp, text.data(), text.size());
-    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
-  } else {
-    delete[] utt->hyp;
-    utt->hyp = new char[1];
-    *(utt->hyp) = '\0';
-  }
-}
-
-}  // namespace
-
-ce_stt_t *ce_stt_init(const char *config_file) {
-  ce_stt_t *recognizer = new ce_stt_t;
-  memset(recognizer, '\0', sizeof(ce_stt_t));
-
-  Status status;
-
-  Configuration conf;
-  status = conf.Read(config_file);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // FST
-  status = ReadHclgFst(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // AM
-  recognizer->am = new AcousticModel();
-  status = recognizer->am->Read(conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // SYMBOL TABLE
-  status = ReadSymbolTable(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // DelteLmFst (if available)
-  status = ReadDeltaLmFst(recognizer, conf);
-  if (!status.ok()) goto pasco_init_failed;
-
-  // Initialize fbank feature extractor
-  recognizer->fbank = new Fbank();
-
-  return recognizer;
-
-  if (false) {
-pasco_init_failed:
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_stt_destroy(recognizer);
-    return nullptr;
-  }
-}
-
-void ce_stt_destroy(ce_stt_t *recognizer) {
-  delete recognizer->fst;
-  recognizer->fst = nullptr;
-
-  delete recognizer->large_lm_fst;
-  recognizer->large_lm_fst = nullptr;
-
-  delete recognizer->delta_lm_fst;
-  recognizer->delta_lm_fst = nullptr;
-
-  delete recognizer->original_lm;
-  recognizer->original_lm = nullptr;
-
-  delete recognizer->am;
-  recognizer->am = NULL;
-
-  delete recognizer->symbol_table;
-  recognizer->symbol_table = nullptr;
-
-  delete recognizer->fbank;
-  recognizer->fbank = NULL;
-
-  delete recognizer;
-}
-
-ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-  ce_utt_t *c_utt = new ce_utt_t;
-  ce_utt_internal_t *utt = new ce_utt_internal_t;
-
-  utt->decoder = std::unique_ptr<Decoder>(new Decoder(
-      recognizer->fst,
-      recognizer->am->TransitionPdfIdMap(),
-      0.1,
-      recognizer->delta_lm_fst));
-  utt->decoder->Initialize();
-
-  c_utt->hyp = new char[1];
-  *(c_utt->hyp) = '\0';
-  c_utt->loglikelihood_per_frame = 0.0f;
-  c_utt->internal = utt;
-
-  // Set wave format in wave reader
-  Status status = utt->wave_reader.SetFormat(*format);
-  if (!status.ok()) {
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_utt_destroy(c_utt);
-    return nullptr;
-  }
-
-  utt->recognizer = recognizer;
-
-  return c_utt;
-}
-
-void ce_utt_destroy(ce_utt_t *c_utt) {
-  delete[] c_utt->hyp;
-  c_utt->hyp = nullptr;
-
-  c_utt->loglikelihood_per_frame = 0.0f;
-
-  delete c_utt->internal;
-  delete c_utt;
-}
-
-int32_t ce_stt_process(ce_utt_t *c_utt, const char *data, int32_t size) {
-  Vector<float> samples;
-  Matrix<float> feats;
-  Matrix<float> log_prob;
-
-  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
-    return CE_STT_FAILED;
-  }
-  const ce_stt_t *recognizer = c_utt->internal->recognizer;
-  ce_utt_internal_t *utt = c_utt->internal;
-
-  // Bytes to samples
-  Status status = utt->wave_reader.Process(data, size, &samples);
-  PK_DEBUG(Format("{} samples read", samples.Dim()));
-  if (!status.ok()) goto pasco_process_failed;
-  if (samples.Dim() == 0) return 0;
-
-  // Samples to fbank features
-  recognizer->fbank->Process(&utt->fbank_inst, samples, &feats);
-  PK_DEBUG(Format("get {} frames of fbank feature", feats.NumRows()));
-
-  // Compute log_prob by AM
-  for (int frame_idx = 0; frame_idx < feats.NumRows(); ++frame_idx) {
-    SubVector<float> frame_feats = feats.Row(frame_idx);
-    recognizer->am->Process(&utt->am_inst, frame_feats, &log_prob);
-    if (log_prob.NumRows() != 0) {
-      PK_DEBUG(Format("get {} frames of log_prob", log_prob.NumRows()));
-      for (int r = 0; r < log_prob.NumRows(); ++r) {
-        utt->decoder->Process(log_prob.Row(r));
-
-        // Update hypothesis
-        if (utt->decoder->NumFramesDecoded() % 20 == 0) {
-          StoreHypText(c_utt);
-        }
-      }
-    }
-  }
-
-  return samples.Dim();
-
-  if (false) {
-pasco_process_failed:
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    return CE_STT_FAILED;
-  }
-}
-
-void ce_stt_end_of_stream(ce_utt_t *c_utt) {
-  PK_DEBUG("pasco_end_of_stream()");
-  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
-    return;
-  }
-  ce_utt_internal_t *utt = c_utt->internal;
-  const ce_stt_t *recognizer = c_utt->internal->recognizer;
-
-  // Process remained frames in AM
-  Matrix<float> log_prob;
-  recognizer->am->EndOfStream(&utt->am_inst, &log_prob);
-  if (log_prob.NumRows() != 0) {
-    for (int r = 0; r < log_prob.NumRows(); ++r) {
-      utt->decoder->Process(log_prob.Row(r));
-    }
-  }
-  utt->decoder->EndOfStream();
-
-  StoreHypText(c_utt);
-}
-
-ce_wave_format_t *ce_read_pcm_header(FILE *fp, ce_wave_format_t *format) {
-  ReadableFile fd(fp);
-  Status status = ReadPcmHeader(&fd, format);
-  if (!status.ok()) {
-    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    return nullptr;
-  }
-
-  return format;
-}
-
-const char *ce_stt_last_error() {
-  return error_message;
-}
+// Created at 2017-03-29
+
+#include "ce_stt.h"
+
+#include <stdlib.h>
+#include <math.h>
+#include <time.h>
+#include <string.h>
+#include <algorithm>
+#include <string>
+#include "am.h"
+#include "cmvn.h"
+#include "decoder.h"
+#include "fbank.h"
+#include "fst.h"
+#include "nnet.h"
+#include "symbol_table.h"
+#include "pcm_reader.h"
+#include "configuration.h"
+#include "util.h"
+
+using pocketkaldi::Decoder;
+using pocketkaldi::Fbank;
+using pocketkaldi::CMVN;
+using pocketkaldi::Status;
+using pocketkaldi::Configuration;
+using pocketkaldi::Vector;
+using pocketkaldi::VectorBase;
+using pocketkaldi::Matrix;
+using pocketkaldi::SubVector;
+using pocketkaldi::AcousticModel;
+using pocketkaldi::SymbolTable;
+using pocketkaldi::LmFst;
+using pocketkaldi::DeltaLmFst;
+using pocketkaldi::util::Format;
+using pocketkaldi::util::ReadableFile;
+using pocketkaldi::ReadPcmHeader;
+using pocketkaldi::WaveReader;
+
+
+typedef struct ce_stt_t {
+  fst::ConstFst<fst::StdArc> *fst;
+  pocketkaldi::LmFst *large_lm_fst;
+  pocketkaldi::DeltaLmFst *delta_lm_fst;
+  pocketkaldi::Vector<float> *original_lm;
+  pocketkaldi::AcousticModel *am;
+  pocketkaldi::Fbank *fbank;
+  pocketkaldi::SymbolTable *symbol_table;
+} ce_stt_t;
+
+// The internal version of an utterance. It stores the intermediate state in
+// decoding.
+typedef struct ce_utt_internal_t {
+  const ce_stt_t *recognizer;
+
+  WaveReader wave_reader;
+  Fbank::Instance fbank_inst;
+  AcousticModel::Instance am_inst;
+  std::unique_ptr<Decoder> decoder;
+} ce_utt_internal_t;
+
+namespace {
+
+// Buffer for last_error()
+char error_message[2048] = "";
+
+// Read symbol table
+Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
+  std::string filename = conf.GetPathOrElse("symbol_table", "");
+  if (filename == "") {
+    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
+        "Unable to find key 'symbol_table' in {}",
+        filename));
+  }
+  self->symbol_table = new SymbolTable();
+  PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
+
+  return Status::OK();
+}
+
+// Read and initialize delta lm fst
+Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
+  std::string large_lm_file = conf.GetPathOrElse("large_lm", "");
+
+  // If delta_lm_fst is not enables
+  if (large_lm_file == "") return Status::OK();
+
+  // Origianl LM in HCLG
+  std::string original_lm_file = conf.GetPathOrElse("original_lm", "");
+  if (original_lm_file == "") {
+    return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
+        "Unable to find key 'original_lm' in {}",
+        original_lm_file));
+  }
+
+  pocketkaldi::util::ReadableFile fd_original_lm;
+  PK_CHECK_STATUS(fd_original_lm.Open(original_lm_file));
+  self->original_lm = new Vector<float>();
+  PK_CHECK_STATUS(self->original_lm->Read(&fd_original_lm));
+
+  // Large LM
+  pocketkaldi::util::ReadableFile fd_large_lm;
+  PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
+  self->large_lm_fst = new LmFst();
+  PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
+  self->large_lm_fst->InitBucket0();
+  
+  // Build DeltaLmFst
+  assert(self->symbol_table != nullptr);
+  self->delta_lm_fst = new DeltaLmFst(self->original_lm,
+                                      self->large_lm_fst,
+                                      self->symbol_table);
+
+  return Status::OK();
+}
+
+// Reads the HCLG fst
+Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
+  std::string filename = conf.GetPathOrElse("fst", "");
+  if (filename == "") {
+    return Status::Corruption(
+        Format("Unable to find key 'fst' in {}", filename));
+  }
+  fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
+  if (!fst) {
+    return Status::IOError(filename);
+  }
+  self->fst = fst;
+
+  return Status::OK();
+}
+
+// Checks if parameter utt is correct. On success return 0, on failed return
+// CE_STT_FAILED and copy error string into error_message
+int32_t CheckParamUtt(ce_utt_t *utt) {
+  if (utt == nullptr) {
+    pasco_strlcpy(error_message, "utt is NULL", sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+  if (utt->internal == nullptr) {
+    pasco_strlcpy(error_message, "utt->internal is NULL", sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+
+  const ce_stt_t *recognizer = utt->internal->recognizer;
+  if (recognizer == nullptr) {
+    pasco_strlcpy(error_message,
+                  "utt->internal->recognizer is NULL", 
+                  sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+
+  return 0;
+}
+
+// Get the hypothesis from best path in pattice and convert it into text format.
+// Then store into utt->hyp
+void StoreHypText(ce_utt_t *utt) {
+  PK_DEBUG("StoreHypText()");
+
+  // Decoding
+  const ce_stt_t *recognizer = utt->internal->recognizer;
+  Decoder *decoder = utt->internal->decoder.get();
+  Decoder::Hypothesis hyp = decoder->BestPath();
+
+  // Get final result
+  std::string text;
+  std::vector<int> words = hyp.words();
+  std::reverse(words.begin(), words.end());
+  if (!hyp.words().empty()) {
+    for (int word : words) {
+      // Append the word into hyp
+      text += recognizer->symbol_table->Get(word);
+      text += ' ';
+    }
+
+    // Copy hyp to utt->hyp
+    delete[] utt->hyp;
+    utt->hyp = new char[text.size()];
+
+    // pasco_strlcpy will fill the last space as '\0' automatically
+    pasco_strlcpy(utt->hyp, text.data(), text.size());
+    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
+  } else {
+    delete[] utt->hyp;
+    utt->hyp = new char[1];
+    *(utt->hyp) = '\0';
+  }
+}
+
+}  // namespace
+
+ce_stt_t *ce_stt_init(const char *config_file) {
+  ce_stt_t *recognizer = new ce_stt_t;
+  memset(recognizer, '\0', sizeof(ce_stt_t));
+
+  Status status;
+
+  Configuration conf;
+  status = conf.Read(config_file);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // FST
+  status = ReadHclgFst(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // AM
+  recognizer->am = new AcousticModel();
+  status = recognizer->am->Read(conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // SYMBOL TABLE
+  status = ReadSymbolTable(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // DelteLmFst (if available)
+  status = ReadDeltaLmFst(recognizer, conf);
+  if (!status.ok()) goto pasco_init_failed;
+
+  // Initialize fbank feature extractor
+  recognizer->fbank = new Fbank();
+
+  return recognizer;
+
+  if (false) {
+pasco_init_failed:
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    ce_stt_destroy(recognizer);
+    return nullptr;
+  }
+}
+
+void ce_stt_destroy(ce_stt_t *recognizer) {
+  delete recognizer->fst;
+  recognizer->fst = nullptr;
+
+  delete recognizer->large_lm_fst;
+  recognizer->large_lm_fst = nullptr;
+
+  delete recognizer->delta_lm_fst;
+  recognizer->delta_lm_fst = nullptr;
+
+  delete recognizer->original_lm;
+  recognizer->original_lm = nullptr;
+
+  delete recognizer->am;
+  recognizer->am = NULL;
+
+  delete recognizer->symbol_table;
+  recognizer->symbol_table = nullptr;
+
+  delete recognizer->fbank;
+  recognizer->fbank = NULL;
+
+  delete recognizer;
+}
+
+ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
+  ce_utt_t *c_utt = new ce_utt_t;
+  ce_utt_internal_t *utt = new ce_utt_internal_t;
+
+  utt->decoder = std::unique_ptr<Decoder>(new Decoder(
+      recognizer->fst,
+      recognizer->am->TransitionPdfIdMap(),
+      0.1,
+      recognizer->delta_lm_fst));
+  utt->decoder->Initialize();
+
+  c_utt->hyp = new char[1];
+  *(c_utt->hyp) = '\0';
+  c_utt->loglikelihood_per_frame = 0.0f;
+  c_utt->internal = utt;
+
+  // Set wave format in wave reader
+  Status status = utt->wave_reader.SetFormat(*format);
+  if (!status.ok()) {
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    ce_utt_destroy(c_utt);
+    return nullptr;
+  }
+
+  utt->recognizer = recognizer;
+
+  return c_utt;
+}
+
+void ce_utt_destroy(ce_utt_t *c_utt) {
+  delete[] c_utt->hyp;
+  c_utt->hyp = nullptr;
+
+  c_utt->loglikelihood_per_frame = 0.0f;
+
+  delete c_utt->internal;
+  delete c_utt;
+}
+
+int32_t ce_stt_process(ce_utt_t *c_utt, const char *data, int32_t size) {
+  Vector<float> samples;
+  Matrix<float> feats;
+  Matrix<float> log_prob;
+
+  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
+    return CE_STT_FAILED;
+  }
+  const ce_stt_t *recognizer = c_utt->internal->recognizer;
+  ce_utt_internal_t *utt = c_utt->internal;
+
+  // Bytes to samples
+  Status status = utt->wave_reader.Process(data, size, &samples);
+  PK_DEBUG(Format("{} samples read", samples.Dim()));
+  if (!status.ok()) goto pasco_process_failed;
+  if (samples.Dim() == 0) return 0;
+
+  // Samples to fbank features
+  recognizer->fbank->Process(&utt->fbank_inst, samples, &feats);
+  PK_DEBUG(Format("get {} frames of fbank feature", feats.NumRows()));
+
+  // Compute log_prob by AM
+  for (int frame_idx = 0; frame_idx < feats.NumRows(); ++frame_idx) {
+    SubVector<float> frame_feats = feats.Row(frame_idx);
+    recognizer->am->Process(&utt->am_inst, frame_feats, &log_prob);
+    if (log_prob.NumRows() != 0) {
+      PK_DEBUG(Format("get {} frames of log_prob", log_prob.NumRows()));
+      for (int r = 0; r < log_prob.NumRows(); ++r) {
+        utt->decoder->Process(log_prob.Row(r));
+
+        // Update hypothesis
+        if (utt->decoder->NumFramesDecoded() % 20 == 0) {
+          StoreHypText(c_utt);
+        }
+      }
+    }
+  }
+
+  return samples.Dim();
+
+  if (false) {
+pasco_process_failed:
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    return CE_STT_FAILED;
+  }
+}
+
+void ce_stt_end_of_stream(ce_utt_t *c_utt) {
+  PK_DEBUG("pasco_end_of_stream()");
+  if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
+    return;
+  }
+  ce_utt_internal_t *utt = c_utt->internal;
+  const ce_stt_t *recognizer = c_utt->internal->recognizer;
+
+  // Process remained frames in AM
+  Matrix<float> log_prob;
+  recognizer->am->EndOfStream(&utt->am_inst, &log_prob);
+  if (log_prob.NumRows() != 0) {
+    for (int r = 0; r < log_prob.NumRows(); ++r) {
+      utt->decoder->Process(log_prob.Row(r));
+    }
+  }
+  utt->decoder->EndOfStream();
+
+  StoreHypText(c_utt);
+}
+
+ce_wave_format_t *ce_read_pcm_header(FILE *fp, ce_wave_format_t *format) {
+  ReadableFile fd(fp);
+  Status status = ReadPcmHeader(&fd, format);
+  if (!status.ok()) {
+    pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
+    return nullptr;
+  }
+
+  return format;
+}
+
+const char *ce_stt_last_error() {
+  return error_message;
+}
diff --git a/src/configuration.cc b/src/configuration.cc
index e407fc7..63d340e 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -1,105 +1,105 @@
-// Created at 2017-4-19
-
-#include "configuration.h"
-
-#include <errno.h>
-#include <limits.h>
-#include <stdlib.h>
-#include <string>
-#include <vector>
-#include "util.h"
-#include "status.h"
-
-namespace pocketkaldi {
-
-const std::string Configuration::kDefaultString = "~_$$NOT_Ext_Val$$>-^-<@@_";
-
-Status Configuration::Read(const std::string &filename) {
-  util::ReadableFile fd;
-  std::string line;
-  std::vector<std::string> fields;
-  std::string key;
-  std::string value;
-  Status status;
-
-  filename_ = filename;
-  status = fd.Open(filename);
-  if (!status.ok()) return status;
-
-  // Read line by line
-  while (!fd.Eof() && fd.ReadLine(&line, &status)) {
-    line = util::Trim(line);
-
-    // Empty line and comment line
-    if (line.empty() || line.front() == '#') continue;
-
-    // Parse the line with key=value format
-    fields = util::Split(line, "=");
-    if (fields.size() != 2 || line.back() == '=') {
-      return Status::Corruption(util::Format(
-          "Unexpected line in {}: {}",
-          filename_,
-          line));
-    }
-    key = util::Tolower(util::Trim(fields[0]));
-    value = util::Trim(fields[1]);
-    if (value.empty()) {
-      return Status::Corruption(util::Format(
-          "Value cound not be empty: {}",
-          filename_,
-          line));
-    }
-
-    table_[key] = value;
-  }
-
-  return status;
-}
-
-std::string Configuration::GetPathOrElse(
-    const std::string &key,
-    const std::string &default_val) const {
-  // Currently it is for *nix only
-  std::string path = GetStringOrElse(key, kDefaultString);
-  if (path == kDefaultString) return default_val;
-
-  // Return the path directly if it is a absolute path
-  if (path.front() == '/') return path; 
-
-  // Get the directory name of filename_
-  int pos = filename_.rfind('/');
-  if (pos == std::string::npos) return path; 
-  std::string directory(filename_.cbegin(), filename_.cbegin() + pos + 1);
-  return directory + path;
-}
-
-std::string Configuration::GetStringOrElse(
-    const std::string &key,
-    const std::string &default_val) const {
-  std::string lower_key = util::Tolower(key);
-  std::unordered_map<std::string, std::string>::const_iterator
-  it = table_.find(lower_key);
-  if (it == table_.end()) return default_val;
-
-  return it->second;
-}
-
-int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
-  std::string int_string = GetStringOrElse(key, kDefaultString);
-  if (int_string == kDefaultString) return default_val;
-  int val = default_val;
-  return ParseInteger(int_string, &val) ? val : default_val;
-}
-
-bool Configuration::ParseInteger(const std::string &str, int *val) {
-  char *end = nullptr;
-  errno = 0;
-  long long_val = strtol(str.c_str(), &end, 10);
-  if (end == str.c_str() || *end != '\0' || errno == ERANGE) return false;
-  if (long_val < INT_MIN || long_val > INT_MAX) return false;
-
-  *val = static_cast<int>(long_val);
-  return true;
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-4-19
+
+#include "configuration.h"
+
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
+#include <string>
+#include <vector>
+#include "util.h"
+#include "status.h"
+
+namespace pocketkaldi {
+
+const std::string Configuration::kDefaultString = "~_$$NOT_Ext_Val$$>-^-<@@_";
+
+Status Configuration::Read(const std::string &filename) {
+  util::ReadableFile fd;
+  std::string line;
+  std::vector<std::string> fields;
+  std::string key;
+  std::string value;
+  Status status;
+
+  filename_ = filename;
+  status = fd.Open(filename);
+  if (!status.ok()) return status;
+
+  // Read line by line
+  while (!fd.Eof() && fd.ReadLine(&line, &status)) {
+    line = util::Trim(line);
+
+    // Empty line and comment line
+    if (line.empty() || line.front() == '#') continue;
+
+    // Parse the line with key=value format
+    fields = util::Split(line, "=");
+    if (fields.size() != 2 || line.back() == '=') {
+      return Status::Corruption(util::Format(
+          "Unexpected line in {}: {}",
+          filename_,
+          line));
+    }
+    key = util::Tolower(util::Trim(fields[0]));
+    value = util::Trim(fields[1]);
+    if (value.empty()) {
+      return Status::Corruption(util::Format(
+          "Value cound not be empty: {}",
+          filename_,
+          line));
+    }
+
+    table_[key] = value;
+  }
+
+  return status;
+}
+
+std::string Configuration::GetPathOrElse(
+    const std::string &key,
+    const std::string &default_val) const {
+  // Currently it is for *nix only
+  std::string path = GetStringOrElse(key, kDefaultString);
+  if (path == kDefaultString) return default_val;
+
+  // Return the path directly if it is a absolute path
+  if (path.front() == '/') return path; 
+
+  // Get the directory name of filename_
+  int pos = filename_.rfind('/');
+  if (pos == std::string::npos) return path; 
+  std::string directory(filename_.cbegin(), filename_.cbegin() + pos + 1);
+  return directory + path;
+}
+
+std::string Configuration::GetStringOrElse(
+    const std::string &key,
+    const std::string &default_val) const {
+  std::string lower_key = util::Tolower(key);
+  std::unordered_map<std::string, std::string>::const_iterator
+  it = table_.find(lower_key);
+  if (it == table_.end()) return default_val;
+
+  return it->second;
+}
+
+int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
+  std::string int_string = GetStringOrElse(key, kDefaultString);
+  if (int_string == kDefaultString) return default_val;
+  int val = default_val;
+  return ParseInteger(int_string, &val) ? val : default_val;
+}
+
+bool Configuration::ParseInteger(const std::string &str, int *val) {
+  char *end = nullptr;
+  errno = 0;
+  long long_val = strtol(str.c_str(), &end, 10);
+  if (end == str.c_str() || *end != '\0' || errno == ERANGE) return false;
+  if (long_val < INT_MIN || long_val > INT_MAX) return false;
+
+  *val = static_cast<int>(long_val);
+  return true;
+}
+
+}  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index fe8d9dd..807e082 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -1,85 +1,85 @@
-// Created at 2017-4-19
-
-#ifndef POCKETKALDI_CONFIGURATION_H_
-#define POCKETKALDI_CONFIGURATION_H_
-
-#include <string>
-#include <unordered_map>
-#include <limits.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-// Configuration is a class to read configuration files for pocketkaldi.
-class Configuration {
- public:
-  // Read configuration from filename. If success, `status->ok` will be true
-  // Otherwise, status->message will contain error message
-  Status Read(const std::string &filename);
-
-  // Get a path from configuration file. If the path is a relative path, return
-  // a path combines path to configuatin file and path itself. If the key not
-  // exist, returns `default`
-  std::string GetPathOrElse(
-      const std::string &key,
-      const std::string &default_val) const;
-
-  // Get a different type of value from configuration file. If the key not
-  // exist (or the value is not an integer for GetIntegerOrElse), returns
-  // `default_val`
-  std::string GetStringOrElse(
-      const std::string &key,
-      const std::string &default_val) const;
-  int GetIntegerOrElse(const std::string &key, int default_val) const;
-
-  // Return Status version
-  Status GetPath(const std::string &key, std::string *val) const {
-    std::string path = GetPathOrElse(key, kDefaultString);
-    if (path == kDefaultString) return KeyNotFound(key);
-    *val = path;
-    return Status::OK();
-  }
-  Status GetString(const std::string &key, std::string *val) const {
-    std::string path = GetStringOrElse(key, kDefaultString);
-    if (path == kDefaultString) return KeyNotFound(key);
-    *val = path;
-    return Status::OK();
-  }
-  Status GetInteger(const std::string &key, int *val) const {
-    std::string int_string = GetStringOrElse(key, kDefaultString);
-    if (int_string == kDefaultString) return KeyNotFound(key);
-    if (!ParseInteger(int_string, val)) {
-      return Status::Corruption(util::Format(
-          "Integer expected for key '{}' in '{}', but '{}' found",
-          key,
-          filename(),
-          int_string));
-    }
-    return Status::OK();
-  }
-
-  // Get filename
-  const std::string &filename() const {
-    return filename_;
-  }
-
- private:
-  static const std::string kDefaultString;
-  
-  std::string filename_;
-  std::unordered_map<std::string, std::string> table_;
-
-  // Parse a decimal integer. Returns false if `str` is not an integer
-  static bool ParseInteger(const std::string &str, int *val);
-
-  Status KeyNotFound(const std::string &key) const {
-    return Status::Corruption(util::Format(
-        "Unable to find key '{}' in '{}'",
-        key,
-        filename()));
-  }
-};
-
-}  // namespace pocketkaldi
-
+// Created at 2017-4-19
+
+#ifndef POCKETKALDI_CONFIGURATION_H_
+#define POCKETKALDI_CONFIGURATION_H_
+
+#include <string>
+#include <unordered_map>
+#include <limits.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+// Configuration is a class to read configuration files for pocketkaldi.
+class Configuration {
+ public:
+  // Read configuration from filename. If success, `status->ok` will be true
+  // Otherwise, status->message will contain error message
+  Status Read(const std::string &filename);
+
+  // Get a path from configuration file. If the path is a relative path, return
+  // a path combines path to configuatin file and path itself. If the key not
+  // exist, returns `default`
+  std::string GetPathOrElse(
+      const std::string &key,
+      const std::string &default_val) const;
+
+  // Get a different type of value from configuration file. If the key not
+  // exist (or the value is not an integer for GetIntegerOrElse), returns
+  // `default_val`
+  std::string GetStringOrElse(
+      const std::string &key,
+      const std::string &default_val) const;
+  int GetIntegerOrElse(const std::string &key, int default_val) const;
+
+  // Return Status version
+  Status GetPath(const std::string &key, std::string *val) const {
+    std::string path = GetPathOrElse(key, kDefaultString);
+    if (path == kDefaultString) return KeyNotFound(key);
+    *val = path;
+    return Status::OK();
+  }
+  Status GetString(const std::string &key, std::string *val) const {
+    std::string path = GetStringOrElse(key, kDefaultString);
+    if (path == kDefaultString) return KeyNotFound(key);
+    *val = path;
+    return Status::OK();
+  }
+  Status GetInteger(const std::string &key, int *val) const {
+    std::string int_string = GetStringOrElse(key, kDefaultString);
+    if (int_string == kDefaultString) return KeyNotFound(key);
+    if (!ParseInteger(int_string, val)) {
+      return Status::Corruption(util::Format(
+          "Integer expected for key '{}' in '{}', but '{}' found",
+          key,
+          filename(),
+          int_string));
+    }
+    return Status::OK();
+  }
+
+  // Get filename
+  const std::string &filename() const {
+    return filename_;
+  }
+
+ private:
+  static const std::string kDefaultString;
+  
+  std::string filename_;
+  std::unordered_map<std::string, std::string> table_;
+
+  // Parse a decimal integer. Returns false if `str` is not an integer
+  static bool ParseInteger(const std::string &str, int *val);
+
+  Status KeyNotFound(const std::string &key) const {
+    return Status::Corruption(util::Format(
+        "Unable to find key '{}' in '{}'",
+        key,
+        filename()));
+  }
+};
+
+}  // namespace pocketkaldi
+
 #endif  // POCKETKALDI_CONFIGURATION_H_
\ No newline at end of file
diff --git a/src/fbank.cc b/src/fbank.cc
index 7ff8865..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -1,320 +1,320 @@
-// Created at 2017-01-29
-
-
-#include "fbank.h"
-
-#include <assert.h>
-#include <float.h>
-#include <stdint.h>
-#include <stdio.h>
-#include <math.h>
-#include "pcm_reader.h"
-#include "matrix.h"
-#include "srfft.h"
-
-#define FRAME_SHIFT (int)(PK_SAMPLERATE * 0.001 * PK_FRAMESHIFT_MS)
-#define FRAME_LENGTH (int)(PK_SAMPLERATE * 0.001 * PK_FRAMELENGTH_MS)
-
-#ifndef M_2PI
-#define M_2PI 6.28318530718
-#endif 
-
-namespace pocketkaldi {
-
-int32_t Fbank::RoundUpToNearestPowerOfTwo(int32_t n) const {
-  assert(n > 0);
-  n--;
-  n |= n >> 1;
-  n |= n >> 2;
-  n |= n >> 4;
-  n |= n >> 8;
-  n |= n >> 16;
-  return n + 1;
-}
-
-int Fbank::CalcNumFrames(const VectorBase<float> &wave) const {
-  int num_samples = wave.Dim();
-  if (num_samples < FRAME_LENGTH) {
-    return 0;
-  } else {
-    return (1 + ((num_samples - FRAME_LENGTH) / FRAME_SHIFT));
-  }
-}
-
-void Fbank::ProcessWindow(
-    const VectorBase<float> &window_function,
-    VectorBase<float> *sub_window) const {
-  // Subtract mean from waveform on each frame (--remove-dc-offset=true)
-  float sum = 0;
-  for (int i = 0; i < sub_window->Dim(); ++i) {
-    sum += (*sub_window)(i);
-  }
-  float mean = sum / sub_window->Dim();
-  for (int i = 0; i < sub_window->Dim(); ++i) {
-    (*sub_window)(i) -= mean;
-  }
-
-  // Signal preemphasis (--preemphasis-coefficient=0.97)
-  for (int i = sub_window->Dim() - 1; i > 0; --i) {
-    (*sub_window)(i) -= PK_PREEMPH_COEFF * (*sub_window)(i - 1);
-  }
-  (*sub_window)(0) -= PK_PREEMPH_COEFF * (*sub_window)(0);
-
-  // Apply hamming window
-  assert(window_function.Dim() == sub_window->Dim() &&
-         "dimension of window_function and sub_window mismatch");
-  for (int i = 0; i < window_function.Dim(); ++i) {
-    (*sub_window)(i) *= window_function(i);
-  }
-}
-
-// Extract a frame from wave and store into vector window. The frame should be
-// initialized and have more dimensions than FRAME_LENGTH (Usually the power of
-// 2).
-void Fbank::ExtractWindow(
-    const VectorBase<float> &wave,
-    int frame_idx,
-    const VectorBase<float> &window_function,
-    Vector<float> *window) const {
-  int start_sample = frame_idx * FRAME_SHIFT;
-  int end_sample = start_sample + FRAME_LENGTH;
-
-  // Some assertion of index
-  assert(start_sample >= 0 && end_sample <= wave.Dim() &&
-         "start_sample or end_sample out of range");
-  assert(window->Dim() >= FRAME_LENGTH &&
-         "window->Dim() should be greater than FRAME_LENGTH");
-
-  // Copy samples from wave to window
-  SubVector<float> sub_window = window->Range(0, FRAME_LENGTH);
-  sub_window.CopyFromVec(wave.Range(start_sample, FRAME_LENGTH));
-
-  // Add padding zeros into the rest of vector window
-  int padding_start = FRAME_LENGTH;
-  for (int i = padding_start; i < window->Dim(); ++i) {
-    (*window)(i) = 0.0;
-  }
-
-  // Process window
-  ProcessWindow(window_function, &sub_window);
-}
-
-// Initialize the melbanks.
-Melbanks::Melbanks(int frame_length_padded) {
-  assert(PK_FBANK_DIM >= 3 && "must have at least 3 mel bins");
-  assert(frame_length_padded % 2 == 0);
-
-  float sample_freq = PK_SAMPLERATE;
-  int num_fft_bins = frame_length_padded / 2;
-
-  // fft-bin width (nyquist-freq / num_fft_bins)
-  float fft_bin_width = sample_freq / frame_length_padded;
-  float mel_low_freq = MelScale(PK_FBANK_LOWFREQ);
-  float mel_high_freq = MelScale(PK_FBANK_HIGHFREQ);
-
-  // divide by num_bins+1 in next line because of end-effects where the bins
-  // spread out to the sides.
-  float mel_freq_delta = (mel_high_freq - mel_low_freq) / (PK_FBANK_DIM + 1);
-
-  // Initialize the mel bins
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    fftbin_offset_[i] = 0;
-  }
-
-  // Calculate the fft-bins vector of each bin
-  Vector<float> this_fftbin(num_fft_bins);
-  for (int bin_idx = 0; bin_idx < PK_FBANK_DIM; ++bin_idx) {
-    float left_mel = mel_low_freq + bin_idx * mel_freq_delta;
-    float center_mel = mel_low_freq + (bin_idx + 1) * mel_freq_delta;
-    float right_mel = mel_low_freq + (bin_idx + 2) * mel_freq_delta;
-
-    // Clear this_fftbin
-    this_fftbin.Set(0.0f);
-
-    int first_index = -1;
-    int last_index = -1;
-    for (int i = 0; i < num_fft_bins; ++i) {
-      // Center frequency of this fft bin
-      float freq = fft_bin_width * i;
-      float mel = MelScale(freq);
-
-      if (mel > left_mel && mel < right_mel) {
-        float weight;
-        if (mel <= center_mel) {
-          weight = (mel - left_mel) / (center_mel - left_mel);
-        } else {
-          weight = (right_mel - mel) / (right_mel - center_mel);
-        }
-        this_fftbin(i) = weight;
-        if (first_index == -1) {
-          first_index = i;
-        }
-        last_index = i;
-      }
-    }
-    assert(first_index != -1 && last_index > first_index);
-
-    // Ok, copy this_fftbin into self->bins[bin_idx]
-    fftbin_offset_[bin_idx] = first_index;
-    int size = last_index + 1 - first_index;
-    bins_[bin_idx].Resize(size);
-    bins_[bin_idx].CopyFromVec(this_fftbin.Range(first_index, size));
-  }
-}
-
-void Melbanks::Compute(
-    const Vector<float> &power_spectrum,
-    Vector<float> *mel_energies_out) const {
-  assert(mel_energies_out->Dim() == PK_FBANK_DIM &&
-         "unexpected dim of mel_energies_out");
-
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    int offset = fftbin_offset_[i];
-    const Vector<float> &fftbin = bins_[i];
-    SubVector<float> sub_power_spectrum = power_spectrum.Range(
-        offset,
-        fftbin.Dim());
-    float energy = fftbin.VecVec(sub_power_spectrum);
-    (*mel_energies_out)(i) = energy;
-
-    if (isnan(energy)) {
-      PK_WARN("some dimension of mel_energies_out is NAN");
-    }
-  }
-}
-
-// Destroy the melbanks
-Melbanks::~Melbanks() {
-  for (int i = 0; i < PK_FBANK_DIM; ++i) {
-    fftbin_offset_[i] = 0;
-  }
-}
-
-void Fbank::ComputePowerSpectrum(Vector<float> *window) const {
-  int dim = window->Dim();
-  assert(dim > 0 && "compute_power_spectrum: dim should be greater than 0");
-  // now we have in waveform, first half of complex spectrum
-  // it's stored as [real0, realN/2-1, real1, im1, real2, im2, ...]
-  int half_dim = dim / 2;
-
-  // Handle this special case
-  float first_energy = (*window)(0) * (*window)(0);
-  float last_energy = (*window)(1) * (*window)(1);
-
-  for (int i = 1; i < half_dim; ++i) {
-    float real = (*window)(i * 2);
-    float im = (*window)(i * 2 + 1);
-    (*window)(i) = real * real + im * im;
-  }
-  (*window)(0) = first_energy;
-  (*window)(half_dim) = last_energy;
-}
-
-// Compute the fbank feature for window, and return as feature. It also needs
-// a buffer_vector, which would be used in srfft computation. The size of
-// buffer_vector should be no less than frame_length_padded
-//
-// NOTE: window will be changed during computation
-//
-void Fbank::ComputeFrame(
-    Vector<float> *window,
-    Vector<float> *feature,
-    Vector<float> *buffer) const {
-  assert(buffer->Dim() >= frame_length_padded_ && "buffer too small");
-  assert(feature->Dim() == PK_FBANK_DIM && "feature size mismatch");
-
-  // Compute FFT using split-radix algorithm. It just overwrites the data in
-  // window 
-  srfft_.Compute(
-      window->Data(),
-      window->Dim(),
-      true,
-      buffer->Data(),
-      buffer->Dim());
-
-  // Compute power spectrum
-  ComputePowerSpectrum(window);
-  SubVector<float> power_spectrum = window->Range(0, window->Dim() / 2 + 1);
-
-  // Sum with mel fiterbanks over the power spectrum
-  melbanks_.Compute(*window, feature);
-
-  // Use log energy here
-  feature->ApplyFloor(FLT_EPSILON);
-  feature->ApplyLog();
-}
-
-// Initialize the hamming window according to FRAME_LENGTH
-void Fbank::HammingWindowInit(Vector<float> *window) {
-  window->Resize(FRAME_LENGTH);
-  float a = M_2PI / (FRAME_LENGTH - 1);
-  for (int i = 0; i < FRAME_LENGTH; ++i) {
-    float i_fl = (float)i;
-    (*window)(i) = 0.54 - 0.46 * cos(a * i_fl);
-  }
-}
-
-Fbank::Fbank() :
-    frame_length_padded_(RoundUpToNearestPowerOfTwo(FRAME_LENGTH)),
-    melbanks_(frame_length_padded_),
-    srfft_(frame_length_padded_) {
-  // Hamming window
-  HammingWindowInit(&window_function_);
-}
-
-void Fbank::Process(
-    Instance *inst,
-    const VectorBase<float> &wave,
-    Matrix<float> *fbank_feature) const {
-  // Do nothing when wave is empty
-  if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, 0);
-    return;
-  }
-
-  // Append wave to wave buffer
-  int original_size = inst->wave_buffer.Dim();
-  inst->wave_buffer.Resize(inst->wave_buffer.Dim() + wave.Dim(),
-                           Vector<float>::kCopyData);
-  inst->wave_buffer.Range(original_size, inst->wave_buffer.Dim() - original_size)
-                   .CopyFromVec(wave);
-
-  // Ok, now we start to process wave_buffer_
-
-  int num_frames = CalcNumFrames(inst->wave_buffer);
-  if (num_frames == 0) {
-    fbank_feature->Resize(0, 0);
-    return;
-  }
-
-  fbank_feature->Resize(num_frames, PK_FBANK_DIM);
-
-
-  // Extract fbank feature frame by frame
-  Vector<float> window(frame_length_padded_, Vector<float>::kUndefined),
-                buffer(frame_length_padded_, Vector<float>::kUndefined),
-                frame_feat(PK_FBANK_DIM, Vector<float>::kUndefined);
-  for (int i = 0; i < num_frames; ++i) {
-    ExtractWindow(inst->wave_buffer, i, window_function_, &window);
-    ComputeFrame(&window, &frame_feat, &buffer);
-
-    // Store the value back to frame
-    fbank_feature->Row(i).CopyFromVec(frame_feat);
-  }
-
-  // Remove useless sampels from wave_buffer_
-  int frames_to_remove = FRAME_SHIFT * num_frames;
-  int next_buffer_size = inst->wave_buffer.Dim() - frames_to_remove;
-  Vector<float> next_buffer;
-  next_buffer.Resize(next_buffer_size);
-  next_buffer.CopyFromVec(inst->wave_buffer.Range(frames_to_remove, next_buffer_size));
-
-  inst->wave_buffer.Resize(next_buffer_size);
-  inst->wave_buffer.CopyFromVec(next_buffer);
-}
-
-Fbank::~Fbank() {
-  frame_length_padded_ = 0;
-}
-
-}  //namespace pocketkaldi
+// Created at 2017-01-29
+
+
+#include "fbank.h"
+
+#include <assert.h>
+#include <float.h>
+#include <stdint.h>
+#include <stdio.h>
+#include <math.h>
+#include "pcm_reader.h"
+#include "matrix.h"
+#include "srfft.h"
+
+#define FRAME_SHIFT (int)(PK_SAMPLERATE * 0.001 * PK_FRAMESHIFT_MS)
+#define FRAME_LENGTH (int)(PK_SAMPLERATE * 0.001 * PK_FRAMELENGTH_MS)
+
+#ifndef M_2PI
+#define M_2PI 6.28318530718
+#endif 
+
+namespace pocketkaldi {
+
+int32_t Fbank::RoundUpToNearestPowerOfTwo(int32_t n) const {
+  assert(n > 0);
+  n--;
+  n |= n >> 1;
+  n |= n >> 2;
+  n |= n >> 4;
+  n |= n >> 8;
+  n |= n >> 16;
+  return n + 1;
+}
+
+int Fbank::CalcNumFrames(const VectorBase<float> &wave) const {
+  int num_samples = wave.Dim();
+  if (num_samples < FRAME_LENGTH) {
+    return 0;
+  } else {
+    return (1 + ((num_samples - FRAME_LENGTH) / FRAME_SHIFT));
+  }
+}
+
+void Fbank::ProcessWindow(
+    const VectorBase<float> &window_function,
+    VectorBase<float> *sub_window) const {
+  // Subtract mean from waveform on each frame (--remove-dc-offset=true)
+  float sum = 0;
+  for (int i = 0; i < sub_window->Dim(); ++i) {
+    sum += (*sub_window)(i);
+  }
+  float mean = sum / sub_window->Dim();
+  for (int i = 0; i < sub_window->Dim(); ++i) {
+    (*sub_window)(i) -= mean;
+  }
+
+  // Signal preemphasis (--preemphasis-coefficient=0.97)
+  for (int i = sub_window->Dim() - 1; i > 0; --i) {
+    (*sub_window)(i) -= PK_PREEMPH_COEFF * (*sub_window)(i - 1);
+  }
+  (*sub_window)(0) -= PK_PREEMPH_COEFF * (*sub_window)(0);
+
+  // Apply hamming window
+  assert(window_function.Dim() == sub_window->Dim() &&
+         "dimension of window_function and sub_window mismatch");
+  for (int i = 0; i < window_function.Dim(); ++i) {
+    (*sub_window)(i) *= window_function(i);
+  }
+}
+
+// Extract a frame from wave and store into vector window. The frame should be
+// initialized and have more dimensions than FRAME_LENGTH (Usually the power of
+// 2).
+void Fbank::ExtractWindow(
+    const VectorBase<float> &wave,
+    int frame_idx,
+    const VectorBase<float> &window_function,
+    Vector<float> *window) const {
+  int start_sample = frame_idx * FRAME_SHIFT;
+  int end_sample = start_sample + FRAME_LENGTH;
+
+  // Some assertion of index
+  assert(start_sample >= 0 && end_sample <= wave.Dim() &&
+         "start_sample or end_sample out of range");
+  assert(window->Dim() >= FRAME_LENGTH &&
+         "window->Dim() should be greater than FRAME_LENGTH");
+
+  // Copy samples from wave to window
+  SubVector<float> sub_window = window->Range(0, FRAME_LENGTH);
+  sub_window.CopyFromVec(wave.Range(start_sample, FRAME_LENGTH));
+
+  // Add padding zeros into the rest of vector window
+  int padding_start = FRAME_LENGTH;
+  for (int i = padding_start; i < window->Dim(); ++i) {
+    (*window)(i) = 0.0;
+  }
+
+  // Process window
+  ProcessWindow(window_function, &sub_window);
+}
+
+// Initialize the melbanks.
+Melbanks::Melbanks(int frame_length_padded) {
+  assert(PK_FBANK_DIM >= 3 && "must have at least 3 mel bins");
+  assert(frame_length_padded % 2 == 0);
+
+  float sample_freq = PK_SAMPLERATE;
+  int num_fft_bins = frame_length_padded / 2;
+
+  // fft-bin width (nyquist-freq / num_fft_bins)
+  float fft_bin_width = sample_freq / frame_length_padded;
+  float mel_low_freq = MelScale(PK_FBANK_LOWFREQ);
+  float mel_high_freq = MelScale(PK_FBANK_HIGHFREQ);
+
+  // divide by num_bins+1 in next line because of end-effects where the bins
+  // spread out to the sides.
+  float mel_freq_delta = (mel_high_freq - mel_low_freq) / (PK_FBANK_DIM + 1);
+
+  // Initialize the mel bins
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    fftbin_offset_[i] = 0;
+  }
+
+  // Calculate the fft-bins vector of each bin
+  Vector<float> this_fftbin(num_fft_bins);
+  for (int bin_idx = 0; bin_idx < PK_FBANK_DIM; ++bin_idx) {
+    float left_mel = mel_low_freq + bin_idx * mel_freq_delta;
+    float center_mel = mel_low_freq + (bin_idx + 1) * mel_freq_delta;
+    float right_mel = mel_low_freq + (bin_idx + 2) * mel_freq_delta;
+
+    // Clear this_fftbin
+    this_fftbin.Set(0.0f);
+
+    int first_index = -1;
+    int last_index = -1;
+    for (int i = 0; i < num_fft_bins; ++i) {
+      // Center frequency of this fft bin
+      float freq = fft_bin_width * i;
+      float mel = MelScale(freq);
+
+      if (mel > left_mel && mel < right_mel) {
+        float weight;
+        if (mel <= center_mel) {
+          weight = (mel - left_mel) / (center_mel - left_mel);
+        } else {
+          weight = (right_mel - mel) / (right_mel - center_mel);
+        }
+        this_fftbin(i) = weight;
+        if (first_index == -1) {
+          first_index = i;
+        }
+        last_index = i;
+      }
+    }
+    assert(first_index != -1 && last_index > first_index);
+
+    // Ok, copy this_fftbin into self->bins[bin_idx]
+    fftbin_offset_[bin_idx] = first_index;
+    int size = last_index + 1 - first_index;
+    bins_[bin_idx].Resize(size);
+    bins_[bin_idx].CopyFromVec(this_fftbin.Range(first_index, size));
+  }
+}
+
+void Melbanks::Compute(
+    const Vector<float> &power_spectrum,
+    Vector<float> *mel_energies_out) const {
+  assert(mel_energies_out->Dim() == PK_FBANK_DIM &&
+         "unexpected dim of mel_energies_out");
+
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    int offset = fftbin_offset_[i];
+    const Vector<float> &fftbin = bins_[i];
+    SubVector<float> sub_power_spectrum = power_spectrum.Range(
+        offset,
+        fftbin.Dim());
+    float energy = fftbin.VecVec(sub_power_spectrum);
+    (*mel_energies_out)(i) = energy;
+
+    if (isnan(energy)) {
+      PK_WARN("some dimension of mel_energies_out is NAN");
+    }
+  }
+}
+
+// Destroy the melbanks
+Melbanks::~Melbanks() {
+  for (int i = 0; i < PK_FBANK_DIM; ++i) {
+    fftbin_offset_[i] = 0;
+  }
+}
+
+void Fbank::ComputePowerSpectrum(Vector<float> *window) const {
+  int dim = window->Dim();
+  assert(dim > 0 && "compute_power_spectrum: dim should be greater than 0");
+  // now we have in waveform, first half of complex spectrum
+  // it's stored as [real0, realN/2-1, real1, im1, real2, im2, ...]
+  int half_dim = dim / 2;
+
+  // Handle this special case
+  float first_energy = (*window)(0) * (*window)(0);
+  float last_energy = (*window)(1) * (*window)(1);
+
+  for (int i = 1; i < half_dim; ++i) {
+    float real = (*window)(i * 2);
+    float im = (*window)(i * 2 + 1);
+    (*window)(i) = real * real + im * im;
+  }
+  (*window)(0) = first_energy;
+  (*window)(half_dim) = last_energy;
+}
+
+// Compute the fbank feature for window, and return as feature. It also needs
+// a buffer_vector, which would be used in srfft computation. The size of
+// buffer_vector should be no less than frame_length_padded
+//
+// NOTE: window will be changed during computation
+//
+void Fbank::ComputeFrame(
+    Vector<float> *window,
+    Vector<float> *feature,
+    Vector<float> *buffer) const {
+  assert(buffer->Dim() >= frame_length_padded_ && "buffer too small");
+  assert(feature->Dim() == PK_FBANK_DIM && "feature size mismatch");
+
+  // Compute FFT using split-radix algorithm. It just overwrites the data in
+  // window 
+  srfft_.Compute(
+      window->Data(),
+      window->Dim(),
+      true,
+      buffer->Data(),
+      buffer->Dim());
+
+  // Compute power spectrum
+  ComputePowerSpectrum(window);
+  SubVector<float> power_spectrum = window->Range(0, window->Dim() / 2 + 1);
+
+  // Sum with mel fiterbanks over the power spectrum
+  melbanks_.Compute(*window, feature);
+
+  // Use log energy here
+  feature->ApplyFloor(FLT_EPSILON);
+  feature->ApplyLog();
+}
+
+// Initialize the hamming window according to FRAME_LENGTH
+void Fbank::HammingWindowInit(Vector<float> *window) {
+  window->Resize(FRAME_LENGTH);
+  float a = M_2PI / (FRAME_LENGTH - 1);
+  for (int i = 0; i < FRAME_LENGTH; ++i) {
+    float i_fl = (float)i;
+    (*window)(i) = 0.54 - 0.46 * cos(a * i_fl);
+  }
+}
+
+Fbank::Fbank() :
+    frame_length_padded_(RoundUpToNearestPowerOfTwo(FRAME_LENGTH)),
+    melbanks_(frame_length_padded_),
+    srfft_(frame_length_padded_) {
+  // Hamming window
+  HammingWindowInit(&window_function_);
+}
+
+void Fbank::Process(
+    Instance *inst,
+    const VectorBase<float> &wave,
+    Matrix<float> *fbank_feature) const {
+  // Do nothing when wave is empty
+  if (wave.Dim() == 0) {
+    fbank_feature->Resize(0, 0);
+    return;
+  }
+
+  // Append wave to wave buffer
+  int original_size = inst->wave_buffer.Dim();
+  inst->wave_buffer.Resize(inst->wave_buffer.Dim() + wave.Dim(),
+                           Vector<float>::kCopyData);
+  inst->wave_buffer.Range(original_size, inst->wave_buffer.Dim() - original_size)
+                   .CopyFromVec(wave);
+
+  // Ok, now we start to process wave_buffer_
+
+  int num_frames = CalcNumFrames(inst->wave_buffer);
+  if (num_frames == 0) {
+    fbank_feature->Resize(0, 0);
+    return;
+  }
+
+  fbank_feature->Resize(num_frames, PK_FBANK_DIM);
+
+
+  // Extract fbank feature frame by frame
+  Vector<float> window(frame_length_padded_, Vector<float>::kUndefined),
+                buffer(frame_length_padded_, Vector<float>::kUndefined),
+                frame_feat(PK_FBANK_DIM, Vector<float>::kUndefined);
+  for (int i = 0; i < num_frames; ++i) {
+    ExtractWindow(inst->wave_buffer, i, window_function_, &window);
+    ComputeFrame(&window, &frame_feat, &buffer);
+
+    // Store the value back to frame
+    fbank_feature->Row(i).CopyFromVec(frame_feat);
+  }
+
+  // Remove useless sampels from wave_buffer_
+  int frames_to_remove = FRAME_SHIFT * num_frames;
+  int next_buffer_size = inst->wave_buffer.Dim() - frames_to_remove;
+  Vector<float> next_buffer;
+  next_buffer.Resize(next_buffer_size);
+  next_buffer.CopyFromVec(inst->wave_buffer.Range(frames_to_remove, next_buffer_size));
+
+  inst->wave_buffer.Resize(next_buffer_size);
+  inst->wave_buffer.CopyFromVec(next_buffer);
+}
+
+Fbank::~Fbank() {
+  frame_length_padded_ = 0;
+}
+
+}  //namespace pocketkaldi
diff --git a/src/fst.cc b/src/fst.cc
index 5957dcf..d4ba22e 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -1,336 +1,336 @@
-// Created at 2016-11-24
-
-#include "fst.h"
-
-#include <assert.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-#include <cmath>
-#include <array>
-#include <algorithm>
-#include "symbol_table.h"
-
-namespace pocketkaldi {
-
-const char *Fst::kSectionName = "pk::fst_0";
-
-FstArc::FstArc() {}
-FstArc::FstArc(int next_state, int ilabel, int olabel, float weight): 
-    next_state(next_state),
-    input_label(ilabel),
-    output_label(olabel),
-    weight(weight) {}
-
-
-Fst::Fst(): start_state_(0) {}
-Fst::~Fst() {}
-
-Fst::ArcIterator::ArcIterator(int base, int total, const FstArc *arcs) :
-    base_(base),
-    cnt_pos_(0),
-    total_(total),
-    arcs_(arcs) {
-}
-Fst::ArcIterator::~ArcIterator() {
-  arcs_ = nullptr;
-  base_ = 0;
-  cnt_pos_ = 0;
-  total_ = 0;
-}
-
-int Fst::StartState() const {
-  return start_state_;
-}
-
-float Fst::Final(int state_id) const {
-  assert(state_id < final_.size());
-  return final_[state_id];
-}
-
-Status Fst::Read(util::ReadableFile *fd) {
-  Status status;
-
-  // Checks section name
-  int section_size;
-  std::array<char, 32> section_name;
-  status = fd->Read(section_name.data(), 32);
-  if (!status.ok()) return status;
-  section_name.back() = '\0';
-  if (std::string(section_name.data()) != kSectionName) {
-    return Status::Corruption(fd->filename());
-  }
-  status = fd->ReadValue<int32_t>(&section_size);
-  if (!status.ok()) return status;
-
-  // Metadata
-  int32_t state_number,
-          arc_number,
-          start_state;
-  status = fd->ReadValue<int32_t>(&state_number);
-  if (!status.ok()) return status;
-  status = fd->ReadValue<int32_t>(&arc_number);
-  if (!status.ok()) return status;  
-  status = fd->ReadValue<int32_t>(&start_state);
-  if (!status.ok()) return status;  
-  start_state_ = start_state;
-
-  if (state_number < 0 || arc_number < 0) {
-    return Status::Corruption(util::Format(
-        "unexpected state_number or arc_number: {}, {}",
-        state_number,
-        arc_number));
-  }
-
-  // Check section size
-  int64_t expected_section_size =
-      sizeof(state_number) +
-      sizeof(arc_number) +
-      sizeof(start_state) +
-      state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
-      arc_number * sizeof(FstArc);
-  if (expected_section_size != section_size) {
-    return Status::Corruption(util::Format(
-        "section_size == {} expected, but {} found",
-        expected_section_size,
-        section_size));
-  }
-
-  // Final weight
-  final_.resize(state_number);
-  status = fd->Read(final_.data(), sizeof(final_.front()) * final_.size());
-  if (!status.ok()) return status; 
-
-  // State idx
-  state_idx_.resize(state_number);
-  status = fd->Read(
-      state_idx_.data(),
-      sizeof(state_idx_.front()) * state_idx_.size());
-  if (!status.ok()) return status;
-
-  // Arcs
-  arcs_.resize(arc_number);
-  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
-  if (!status.ok()) return status;
-
-  // Success
-  return status;
-}
-
-int Fst::CountArcs(int state) const {
-  int state_idx = state_idx_[state];
-  if (state_idx < 0) return 0;
-
-  int count;
-  int next_state = -1;
-
-  // Find the next state that have outcoming arcs
-  for (int chk_state = state + 1; chk_state < state_idx_.size(); ++chk_state) {
-    if (state_idx_[chk_state] > 0) {
-      next_state = chk_state;
-      break;
-    }
-  }
-  int next_idx = next_state >= 0 ? state_idx_[next_state] : arcs_.size();
-  return next_idx - state_idx;
-}
-
-bool Fst::GetArc(int state, int ilabel, FstArc *arc) const {
-  int num_arcs = CountArcs(state);
-  if (num_arcs == 0) return false;
-
-  int start_idx = state_idx_[state];
-  const FstArc *first = &arcs_[start_idx];
-  const FstArc *last = &arcs_[start_idx + num_arcs];
-
-
-  const FstArc *found_arc = std::lower_bound(
-      first,
-      last,
-      FstArc(0, ilabel, 0, 0.0f), 
-      [] (const FstArc &l, const FstArc &r) {
-        return l.input_label < r.input_label;
-      });
-  if (found_arc == last || found_arc->input_label != ilabel) {
-    return false;
-  } else {
-    // We have found this arc
-    *arc = *found_arc;
-    return true;
-  }
-}
-
-Fst::ArcIterator Fst::IterateArcs(int state) const {
-  assert(state < state_idx_.size() && state >= 0);
-  int total_arcs = CountArcs(state);
-  return ArcIterator(
-    state_idx_[state],
-    total_arcs,
-    arcs_.data());
-}
-
-const FstArc *Fst::ArcIterator::Next() {
-  if (cnt_pos_ < total_) {
-    const FstArc *arc = &arcs_[base_ + cnt_pos_];
-    ++cnt_pos_;
-    return arc;
-  } else {
-    return nullptr;
-  }
-}
-
-void LmFst::InitBucket0() {
-  // Optimize for special state 0
-  ArcIterator arc_iter = IterateArcs(0);
-  const FstArc *arc = nullptr;
-  int max_ilabel = 0;
-  while ((arc = arc_iter.Next()) != nullptr) {
-    if (arc->input_label > max_ilabel) {
-      max_ilabel = arc->input_label;
-    }
-  }
-
-  // Initalize bucket_0_
-  bucket_0_.resize(max_ilabel + 1);
-  for (FstArc &arc : bucket_0_) {
-    arc.input_label = -1;
-  }
-
-  // Fill bucket_0_
-  arc_iter = IterateArcs(0);
-  while ((arc = arc_iter.Next()) != nullptr) {
-    bucket_0_[arc->input_label] = *arc;
-  }
-}
-
-const FstArc *LmFst::GetBackoffArc(int state) const {
-  int num_arcs = CountArcs(state);
-  if (num_arcs == 0) return nullptr;
-
-  int start_idx = state_idx_[state];
-  const FstArc *first = &arcs_[start_idx];
-
-  if (first->input_label != 0) return nullptr;
-  return first;
-}
-
-bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
-  assert(ilabel != 0 && "invalid ilabel");
-
-  // We have special optimize for state 0
-  if (state == 0 && ilabel < bucket_0_.size()) {
-    if (bucket_0_[ilabel].input_label == ilabel) {
-      *arc = bucket_0_[ilabel];
-      return true;
-    }
-  }
-
-  if (Fst::GetArc(state, ilabel, arc)) {
-    return true;
-  } else {
-    const FstArc *backoff_arc = GetBackoffArc(state);
-    if (backoff_arc) {
-      if (!GetArc(backoff_arc->next_state, ilabel, arc)) return false;
-      arc->weight += backoff_arc->weight;
-      return true;
-    } else {
-      return false;
-    }
-  }
-}
-
-float LmFst::Final(int state_id) const {
-  float final = Fst::Final(state_id);
-  if (std::isfinite(final)) {
-    return final;
-  } else {
-    // Follow the backoff arc
-    const FstArc *backoff_arc = GetBackoffArc(state_id);
-    if (backoff_arc) {
-      float final_w = Final(backoff_arc->next_state);
-      if (!std::isfinite(final_w)) return INFINITY;
-
-      return final_w + backoff_arc->weight;
-    } else {
-      return INFINITY;
-    }
-  }
-}
-
-DeltaLmFst::DeltaLmFst(
-    const Vector<float> *small_lm,
-    const LmFst *lm,
-    const SymbolTable *symbol_table):
-        small_lm_(small_lm),
-        lm_(lm) {
-  bos_symbol_ = symbol_table->bos_id();
-  eos_symbol_ = symbol_table->eos_id();
-}
-
-int DeltaLmFst::StartState() const {
-  int start_state = lm_->StartState();
-  FstArc arc;
-  if (lm_->GetArc(start_state, bos_symbol_, &arc)) {
-    return arc.next_state;
-  } else {
-    PK_WARN("lm_ didn't have symbol <s> as input");
-    return start_state;
-  }
-}
-
-bool DeltaLmFst::GetArc(int state, int ilabel, FstArc *arc) const {
-  if (lm_->GetArc(state, ilabel, arc)) {
-    arc->weight -= (*small_lm_)(ilabel);
-    return true;
-  } else {
-    return false;
-  }
-}
-
-float DeltaLmFst::Final(int state_id) const {
-  FstArc arc;
-  if (lm_->GetArc(state_id, eos_symbol_, &arc)) {
-    return lm_->Final(arc.next_state) + arc.weight - (*small_lm_)(eos_symbol_);
-  } else {
-    return INFINITY;
-  }
-}
-
-CachedFst::CachedFst(const IFst *fst, int bucket_size) : fst_(fst) {
-  buckets_.resize(bucket_size);
-  for (std::pair<int, FstArc> &item : buckets_) {
-    item.first = -1;
-  }
-}
-
-int CachedFst::StartState() const {
-  return fst_->StartState();
-}
-
-float CachedFst::Final(int state) const {
-  return fst_->Final(state);
-}
-
-bool CachedFst::GetArc(int state, int ilabel, FstArc *arc) {
-  // Do nothing when state is 0, we have special optimize for it
-  if (state == 0) {
-    return fst_->GetArc(state, ilabel, arc);
-  }
-
-  int idx = Hash(state, ilabel) % buckets_.size();
-  std::pair<int, FstArc> &item = buckets_[idx];
-  if (item.first == state && item.second.input_label == ilabel) {
-    *arc = item.second;
-    return true;
-  }
-
-  bool success = fst_->GetArc(state, ilabel, arc);
-  if (success) {
-    item.first = state;
-    item.second = *arc;
-  }
-
-  return success;
-}
-
-}  // namespace pocketkaldi
+// Created at 2016-11-24
+
+#include "fst.h"
+
+#include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <cmath>
+#include <array>
+#include <algorithm>
+#include "symbol_table.h"
+
+namespace pocketkaldi {
+
+const char *Fst::kSectionName = "pk::fst_0";
+
+FstArc::FstArc() {}
+FstArc::FstArc(int next_state, int ilabel, int olabel, float weight): 
+    next_state(next_state),
+    input_label(ilabel),
+    output_label(olabel),
+    weight(weight) {}
+
+
+Fst::Fst(): start_state_(0) {}
+Fst::~Fst() {}
+
+Fst::ArcIterator::ArcIterator(int base, int total, const FstArc *arcs) :
+    base_(base),
+    cnt_pos_(0),
+    total_(total),
+    arcs_(arcs) {
+}
+Fst::ArcIterator::~ArcIterator() {
+  arcs_ = nullptr;
+  base_ = 0;
+  cnt_pos_ = 0;
+  total_ = 0;
+}
+
+int Fst::StartState() const {
+  return start_state_;
+}
+
+float Fst::Final(int state_id) const {
+  assert(state_id < final_.size());
+  return final_[state_id];
+}
+
+Status Fst::Read(util::ReadableFile *fd) {
+  Status status;
+
+  // Checks section name
+  int section_size;
+  std::array<char, 32> section_name;
+  status = fd->Read(section_name.data(), 32);
+  if (!status.ok()) return status;
+  section_name.back() = '\0';
+  if (std::string(section_name.data()) != kSectionName) {
+    return Status::Corruption(fd->filename());
+  }
+  status = fd->ReadValue<int32_t>(&section_size);
+  if (!status.ok()) return status;
+
+  // Metadata
+  int32_t state_number,
+          arc_number,
+          start_state;
+  status = fd->ReadValue<int32_t>(&state_number);
+  if (!status.ok()) return status;
+  status = fd->ReadValue<int32_t>(&arc_number);
+  if (!status.ok()) return status;  
+  status = fd->ReadValue<int32_t>(&start_state);
+  if (!status.ok()) return status;  
+  start_state_ = start_state;
+
+  if (state_number < 0 || arc_number < 0) {
+    return Status::Corruption(util::Format(
+        "unexpected state_number or arc_number: {}, {}",
+        state_number,
+        arc_number));
+  }
+
+  // Check section size
+  int64_t expected_section_size =
+      sizeof(state_number) +
+      sizeof(arc_number) +
+      sizeof(start_state) +
+      state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
+      arc_number * sizeof(FstArc);
+  if (expected_section_size != section_size) {
+    return Status::Corruption(util::Format(
+        "section_size == {} expected, but {} found",
+        expected_section_size,
+        section_size));
+  }
+
+  // Final weight
+  final_.resize(state_number);
+  status = fd->Read(final_.data(), sizeof(final_.front()) * final_.size());
+  if (!status.ok()) return status; 
+
+  // State idx
+  state_idx_.resize(state_number);
+  status = fd->Read(
+      state_idx_.data(),
+      sizeof(state_idx_.front()) * state_idx_.size());
+  if (!status.ok()) return status;
+
+  // Arcs
+  arcs_.resize(arc_number);
+  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
+  if (!status.ok()) return status;
+
+  // Success
+  return status;
+}
+
+int Fst::CountArcs(int state) const {
+  int state_idx = state_idx_[state];
+  if (state_idx < 0) return 0;
+
+  int count;
+  int next_state = -1;
+
+  // Find the next state that have outcoming arcs
+  for (int chk_state = state + 1; chk_state < state_idx_.size(); ++chk_state) {
+    if (state_idx_[chk_state] > 0) {
+      next_state = chk_state;
+      break;
+    }
+  }
+  int next_idx = next_state >= 0 ? state_idx_[next_state] : arcs_.size();
+  return next_idx - state_idx;
+}
+
+bool Fst::GetArc(int state, int ilabel, FstArc *arc) const {
+  int num_arcs = CountArcs(state);
+  if (num_arcs == 0) return false;
+
+  int start_idx = state_idx_[state];
+  const FstArc *first = &arcs_[start_idx];
+  const FstArc *last = &arcs_[start_idx + num_arcs];
+
+
+  const FstArc *found_arc = std::lower_bound(
+      first,
+      last,
+      FstArc(0, ilabel, 0, 0.0f), 
+      [] (const FstArc &l, const FstArc &r) {
+        return l.input_label < r.input_label;
+      });
+  if (found_arc == last || found_arc->input_label != ilabel) {
+    return false;
+  } else {
+    // We have found this arc
+    *arc = *found_arc;
+    return true;
+  }
+}
+
+Fst::ArcIterator Fst::IterateArcs(int state) const {
+  assert(state < state_idx_.size() && state >= 0);
+  int total_arcs = CountArcs(state);
+  return ArcIterator(
+    state_idx_[state],
+    total_arcs,
+    arcs_.data());
+}
+
+const FstArc *Fst::ArcIterator::Next() {
+  if (cnt_pos_ < total_) {
+    const FstArc *arc = &arcs_[base_ + cnt_pos_];
+    ++cnt_pos_;
+    return arc;
+  } else {
+    return nullptr;
+  }
+}
+
+void LmFst::InitBucket0() {
+  // Optimize for special state 0
+  ArcIterator arc_iter = IterateArcs(0);
+  const FstArc *arc = nullptr;
+  int max_ilabel = 0;
+  while ((arc = arc_iter.Next()) != nullptr) {
+    if (arc->input_label > max_ilabel) {
+      max_ilabel = arc->input_label;
+    }
+  }
+
+  // Initalize bucket_0_
+  bucket_0_.resize(max_ilabel + 1);
+  for (FstArc &arc : bucket_0_) {
+    arc.input_label = -1;
+  }
+
+  // Fill bucket_0_
+  arc_iter = IterateArcs(0);
+  while ((arc = arc_iter.Next()) != nullptr) {
+    bucket_0_[arc->input_label] = *arc;
+  }
+}
+
+const FstArc *LmFst::GetBackoffArc(int state) const {
+  int num_arcs = CountArcs(state);
+  if (num_arcs == 0) return nullptr;
+
+  int start_idx = state_idx_[state];
+  const FstArc *first = &arcs_[start_idx];
+
+  if (first->input_label != 0) return nullptr;
+  return first;
+}
+
+bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
+  assert(ilabel != 0 && "invalid ilabel");
+
+  // We have special optimize for state 0
+  if (state == 0 && ilabel < bucket_0_.size()) {
+    if (bucket_0_[ilabel].input_label == ilabel) {
+      *arc = bucket_0_[ilabel];
+      return true;
+    }
+  }
+
+  if (Fst::GetArc(state, ilabel, arc)) {
+    return true;
+  } else {
+    const FstArc *backoff_arc = GetBackoffArc(state);
+    if (backoff_arc) {
+      if (!GetArc(backoff_arc->next_state, ilabel, arc)) return false;
+      arc->weight += backoff_arc->weight;
+      return true;
+    } else {
+      return false;
+    }
+  }
+}
+
+float LmFst::Final(int state_id) const {
+  float final = Fst::Final(state_id);
+  if (std::isfinite(final)) {
+    return final;
+  } else {
+    // Follow the backoff arc
+    const FstArc *backoff_arc = GetBackoffArc(state_id);
+    if (backoff_arc) {
+      float final_w = Final(backoff_arc->next_state);
+      if (!std::isfinite(final_w)) return INFINITY;
+
+      return final_w + backoff_arc->weight;
+    } else {
+      return INFINITY;
+    }
+  }
+}
+
+DeltaLmFst::DeltaLmFst(
+    const Vector<float> *small_lm,
+    const LmFst *lm,
+    const SymbolTable *symbol_table):
+        small_lm_(small_lm),
+        lm_(lm) {
+  bos_symbol_ = symbol_table->bos_id();
+  eos_symbol_ = symbol_table->eos_id();
+}
+
+int DeltaLmFst::StartState() const {
+  int start_state = lm_->StartState();
+  FstArc arc;
+  if (lm_->GetArc(start_state, bos_symbol_, &arc)) {
+    return arc.next_state;
+  } else {
+    PK_WARN("lm_ didn't have symbol <s> as input");
+    return start_state;
+  }
+}
+
+bool DeltaLmFst::GetArc(int state, int ilabel, FstArc *arc) const {
+  if (lm_->GetArc(state, ilabel, arc)) {
+    arc->weight -= (*small_lm_)(ilabel);
+    return true;
+  } else {
+    return false;
+  }
+}
+
+float DeltaLmFst::Final(int state_id) const {
+  FstArc arc;
+  if (lm_->GetArc(state_id, eos_symbol_, &arc)) {
+    return lm_->Final(arc.next_state) + arc.weight - (*small_lm_)(eos_symbol_);
+  } else {
+    return INFINITY;
+  }
+}
+
+CachedFst::CachedFst(const IFst *fst, int bucket_size) : fst_(fst) {
+  buckets_.resize(bucket_size);
+  for (std::pair<int, FstArc> &item : buckets_) {
+    item.first = -1;
+  }
+}
+
+int CachedFst::StartState() const {
+  return fst_->StartState();
+}
+
+float CachedFst::Final(int state) const {
+  return fst_->Final(state);
+}
+
+bool CachedFst::GetArc(int state, int ilabel, FstArc *arc) {
+  // Do nothing when state is 0, we have special optimize for it
+  if (state == 0) {
+    return fst_->GetArc(state, ilabel, arc);
+  }
+
+  int idx = Hash(state, ilabel) % buckets_.size();
+  std::pair<int, FstArc> &item = buckets_[idx];
+  if (item.first == state && item.second.input_label == ilabel) {
+    *arc = item.second;
+    return true;
+  }
+
+  bool success = fst_->GetArc(state, ilabel, arc);
+  if (success) {
+    item.first = state;
+    item.second = *arc;
+  }
+
+  return success;
+}
+
+}  // namespace pocketkaldi
diff --git a/src/hashtable.h b/src/hashtable.h
index 91f5d99..da9f058 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -1,194 +1,194 @@
-// hashlist.h --- Created at 2016-11-08
-// hashtable.h ---  Created at 2017-04-10
-
-#ifndef POCKETKALDI_HASHTABLE_H_
-#define POCKETKALDI_HASHTABLE_H_
-
-#include <assert.h>
-#include <stdint.h>
-#include <stdbool.h>
-#include <functional>
-#include "ce_stt.h"
-
-namespace pocketkaldi {
-
-extern int gPrimeNumbers[32];
-
-// Hash fucntions
-inline int32_t hash(int32_t x) {
-  return x;
-}
-
-// A open addressing implementation of hashtable
-// It assumes both K and V are prime types. So value copy won't cost too much
-// time. Usually, K is int and V is int or pointer
-template<typename K, typename V>
-class HashTable {
- public:
-  static constexpr int kDefaultCap = 1024;
-  static constexpr double kLoadFactor = 0.5;
-
-  // Initialize the hashtable. And the bucket size will be the nearest prime
-  // number of initial_cap.
-  HashTable(): HashTable(kDefaultCap) {}
-  HashTable(int initial_cap) {
-    prime_idx_ = NearestPrimeIdx(initial_cap);
-    bucket_size_ = gPrimeNumbers[prime_idx_];
-
-    CreateBuckets(&buckets_, &empty_, bucket_size_);
-    size_ = 0;
-  }
-
-  // Destroy the hashtable.
-  ~HashTable() {
-    size_ = 0;
-    prime_idx_ = 0;
-    bucket_size_ = 0;
-
-    delete[] empty_;
-    empty_ = NULL;
-
-    delete[] buckets_;
-    buckets_ = NULL;
-  }
-
-  // Insert or update an element in the hash table
-  void Insert(K key, V value) {
-    // Keep the load below kLoadFactor after this insertion, otherwise the
-    // quadratic probing may be unable to find an empty bucket
-    while ((size_ + 1.0) / bucket_size_ > kLoadFactor) {
-      ExtendBuckets();
-    }
-
-    int idx = Lookup(buckets_, empty_, bucket_size_, key);
-    if (empty_[idx]) {
-      // Insert
-      buckets_[idx].key = key;
-      buckets_[idx].value = value;
-      empty_[idx] = false;
-      ++size_;
-    } else {
-      // Update
-      assert(buckets_[idx].key == key);
-      buckets_[idx].value = value;
-    }
-  }
-
-  // Find element in the hash table. If the key doesn't exist, return
-  // default_val, else return the value
-  V Find(K key, V default_val) {
-    int idx = Lookup(buckets_, empty_, bucket_size_, key);
-    if (empty_[idx]) {
-      return default_val;
-    } else {
-      assert(buckets_[idx].key == key);
-      return buckets_[idx].value;
-    }
-  }
-
-  // Clear all elements in hashtable
-  void Clear() {
-    size_ = 0;
-    for (int i = 0; i < bucket_size_; ++i) {
-      empty_[i] = true;
-    }
-  }
-
- private:
-  struct Item {
-    K key;
-    V value;
-  };
-
-  Item *buckets_;
-  bool *empty_;  // empty_[i] == true means buckets_[i] is empty
-
-  // bucket_size always equal to prime_numbers[prime_idx]
-  int bucket_size_;
-  int prime_idx_;
-
-  int size_;
-
-  // Get index of the nearest prime number of num in gPrimeNumbers. And the
-  // prime number should greater or equal than num
-  int NearestPrimeIdx(int num) const {
-    assert(num <= 2147483647);  // num < 2^31 - 1
-
-    int num_primes = sizeof(gPrimeNumbers) / sizeof(int);
-    for (int prime_idx = 0; prime_idx < num_primes; ++prime_idx) {
-      int prime_number = gPrimeNumbers[prime_idx];
-      if (prime_number >= num) return prime_idx;
-    }
-
-    assert(false);
-    return -1;
-  }
-
-  // Create and initialize buckets and is_empty array
-  void CreateBuckets(Item **buckets, bool **empty, int bucket_size) const {
-    *buckets = new Item[bucket_size];
-    *empty = new bool[bucket_size];
-    for (int i = 0; i < bucket_size; ++i) {
-      (*empty)[i] = true;
-    }
-  }
-
-  // Find the position that the key will be put. If the key already exists in
-  // buckets, returns the position to it. If the key doesn't exists, returns
-  // the position to put.
-  int Lookup(Item *buckets, bool *empty, int buckets_size, K key) const {
-    int hashval = hash(key) % buckets_size;
-    for (int i = 1; ; ++i) {
-      assert(i < 65536);
-      for (int sign = -1; sign <= 1; sign += 2) {
-        int squared = i * i;
-        int idx = hashval + (sign == -1 ? -squared : squared);
-
-        // Boundary
-        idx = idx % buckets_size;
-        idx = idx < 0 ? idx + buckets_size : idx;
-
-        if (empty[idx] == true) return idx;
-        if (buckets[idx].key == key) return idx;
-      }
-    }
-  }
-
-  // Extend the hashtable, and put the elements into the new bucket
-  void ExtendBuckets() {
-    int new_size = gPrimeNumbers[prime_idx_ + 1];
-
-    // Allocate and initialize the new buckets
-    Item *new_buckets = NULL;
-    bool *new_empty = NULL;
-    CreateBuckets(&new_buckets, &new_empty, new_size);
-
-    // Put each element into new buckets
-    for (int i = 0; i < bucket_size_; ++i) {
-      if (empty_[i]) continue;
-      K key = buckets_[i].key;
-      V value = buckets_[i].value;
-
-      int new_idx = Lookup(new_buckets, new_empty, new_size, key);
-      assert(new_empty[new_idx] && "ExtendBuckets: element already exists");
-
-      new_buckets[new_idx].key = key;
-      new_buckets[new_idx].value = value;
-      new_empty[new_idx] = false;
-    }
-
-    // Free the original buckets and is_empty array
-    delete[] buckets_;
-    delete[] empty_;
-
-    // Replace the buckets and is_empty array
-    buckets_ = new_buckets;
-    empty_ = new_empty;
-    bucket_size_ = new_size;
-    prime_idx_ = prime_idx_ + 1;
-  }
-};
-
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_HASHTABLE_H_
+// hashlist.h --- Created at 2016-11-08
+// hashtable.h ---  Created at 2017-04-10
+
+#ifndef POCKETKALDI_HASHTABLE_H_
+#define POCKETKALDI_HASHTABLE_H_
+
+#include <assert.h>
+#include <stdint.h>
+#include <stdbool.h>
+#include <functional>
+#include "ce_stt.h"
+
+namespace pocketkaldi {
+
+extern int gPrimeNumbers[32];
+
+// Hash fucntions
+inline int32_t hash(int32_t x) {
+  return x;
+}
+
+// A open addressing implementation of hashtable
+// It assumes both K and V are prime types. So value copy won't cost too much
+// time. Usually, K is int and V is int or pointer
+template<typename K, typename V>
+class HashTable {
+ public:
+  static constexpr int kDefaultCap = 1024;
+  static constexpr double kLoadFactor = 0.5;
+
+  // Initialize the hashtable. And the bucket size will be the nearest prime
+  // number of initial_cap.
+  HashTable(): HashTable(kDefaultCap) {}
+  HashTable(int initial_cap) {
+    prime_idx_ = NearestPrimeIdx(initial_cap);
+    bucket_size_ = gPrimeNumbers[prime_idx_];
+
+    CreateBuckets(&buckets_, &empty_, bucket_size_);
+    size_ = 0;
+  }
+
+  // Destroy the hashtable.
+  ~HashTable() {
+    size_ = 0;
+    prime_idx_ = 0;
+    bucket_size_ = 0;
+
+    delete[] empty_;
+    empty_ = NULL;
+
+    delete[] buckets_;
+    buckets_ = NULL;
+  }
+
+  // Insert or update an element in the hash table
+  void Insert(K key, V value) {
+    // Keep the load below kLoadFactor after this insertion, otherwise the
+    // quadratic probing may be unable to find an empty bucket
+    while ((size_ + 1.0) / bucket_size_ > kLoadFactor) {
+      ExtendBuckets();
+    }
+
+    int idx = Lookup(buckets_, empty_, bucket_size_, key);
+    if (empty_[idx]) {
+      // Insert
+      buckets_[idx].key = key;
+      buckets_[idx].value = value;
+      empty_[idx] = false;
+      ++size_;
+    } else {
+      // Update
+      assert(buckets_[idx].key == key);
+      buckets_[idx].value = value;
+    }
+  }
+
+  // Find element in the hash table. If the key doesn't exist, return
+  // default_val, else return the value
+  V Find(K key, V default_val) {
+    int idx = Lookup(buckets_, empty_, bucket_size_, key);
+    if (empty_[idx]) {
+      return default_val;
+    } else {
+      assert(buckets_[idx].key == key);
+      return buckets_[idx].value;
+    }
+  }
+
+  // Clear all elements in hashtable
+  void Clear() {
+    size_ = 0;
+    for (int i = 0; i < bucket_size_; ++i) {
+      empty_[i] = true;
+    }
+  }
+
+ private:
+  struct Item {
+    K key;
+    V value;
+  };
+
+  Item *buckets_;
+  bool *empty_;  // empty_[i] == true means buckets_[i] is empty
+
+  // bucket_size always equal to prime_numbers[prime_idx]
+  int bucket_size_;
+  int prime_idx_;
+
+  int size_;
+
+  // Get index of the nearest prime number of num in gPrimeNumbers. And the
+  // prime number should greater or equal than num
+  int NearestPrimeIdx(int num) const {
+    assert(num <= 2147483647);  // num < 2^31 - 1
+
+    int num_primes = sizeof(gPrimeNumbers) / sizeof(int);
+    for (int prime_idx = 0; prime_idx < num_primes; ++prime_idx) {
+      int prime_number = gPrimeNumbers[prime_idx];
+      if (prime_number >= num) return prime_idx;
+    }
+
+    assert(false);
+    return -1;
+  }
+
+  // Create and initialize buckets and is_empty array
+  void CreateBuckets(Item **buckets, bool **empty, int bucket_size) const {
+    *buckets = new Item[bucket_size];
+    *empty = new bool[bucket_size];
+    for (int i = 0; i < bucket_size; ++i) {
+      (*empty)[i] = true;
+    }
+  }
+
+  // Find the position that the key will be put. If the key already exists in
+  // buckets, returns the position to it. If the key doesn't exists, returns
+  // the position to put.
+  int Lookup(Item *buckets, bool *empty, int buckets_size, K key) const {
+    int hashval = hash(key) % buckets_size;
+    for (int i = 1; ; ++i) {
+      assert(i < 65536);
+      for (int sign = -1; sign <= 1; sign += 2) {
+        int squared = i * i;
+        int idx = hashval + (sign == -1 ? -squared : squared);
+
+        // Boundary
+        idx = idx % buckets_size;
+        idx = idx < 0 ? idx + buckets_size : idx;
+
+        if (empty[idx] == true) return idx;
+        if (buckets[idx].key == key) return idx;
+      }
+    }
+  }
+
+  // Extend the hashtable, and put the elements into the new bucket
+  void ExtendBuckets() {
+    int new_size = gPrimeNumbers[prime_idx_ + 1];
+
+    // Allocate and initialize the new buckets
+    Item *new_buckets = NULL;
+    bool *new_empty = NULL;
+    CreateBuckets(&new_buckets, &new_empty, new_size);
+
+    // Put each element into new buckets
+    for (int i = 0; i < bucket_size_; ++i) {
+      if (empty_[i]) continue;
+      K key = buckets_[i].key;
+      V value = buckets_[i].value;
+
+      int new_idx = Lookup(new_buckets, new_empty, new_size, key);
+      assert(new_empty[new_idx] && "ExtendBuckets: element already exists");
+
+      new_buckets[new_idx].key = key;
+      new_buckets[new_idx].value = value;
+      new_empty[new_idx] = false;
+    }
+
+    // Free the original buckets and is_empty array
+    delete[] buckets_;
+    delete[] empty_;
+
+    // Replace the buckets and is_empty array
+    buckets_ = new_buckets;
+    empty_ = new_empty;
+    bucket_size_ = new_size;
+    prime_idx_ = prime_idx_ + 1;
+  }
+};
+
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_HASHTABLE_H_
diff --git a/src/matrix.cc b/src/matrix.cc
index f7f6b31..ba84403 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -1,432 +1,432 @@
-// 2017-01-27
-
-#include "matrix.h"
-
-#include <assert.h>
-#include <stdlib.h>
-#include <string.h>
-#include <math.h>
-#include <cblas.h>
-#include <limits>
-#include "util.h"
-
-#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
-
-namespace pocketkaldi {
-
-using gemmlowp::eight_bit_int_gemm::BitDepthSetting;
-using gemmlowp::eight_bit_int_gemm::EightBitIntGemm;
-
-template<typename Real>
-void MatrixBase<Real>::CopyFromMat(const MatrixBase<Real> &M, int trans) {
-  if (trans == kNoTrans) {
-    assert(num_rows_ == M.NumRows() && num_cols_ == M.NumCols());
-    for (int i = 0; i < num_rows_; i++) {
-      (*this).Row(i).CopyFromVec(M.Row(i));
-    }
-  } else {
-    assert(num_cols_ == M.NumRows() && num_rows_ == M.NumCols());
-    int this_stride = stride_, other_stride = M.Stride();
-    Real *this_data = data_;
-    const Real *other_data = M.Data();
-    for (int i = 0; i < num_rows_; i++) {
-      for (int j = 0; j < num_cols_; j++) {
-        this_data[i * this_stride + j] = other_data[j * other_stride + i];
-      }
-    }
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Swap(Matrix<Real> *other) {
-  std::swap(this->data_, other->data_);
-  std::swap(this->num_cols_, other->num_cols_);
-  std::swap(this->num_rows_, other->num_rows_);
-  std::swap(this->stride_, other->stride_);
-}
-
-template<typename Real>
-void MatrixBase<Real>::Transpose() {
-  assert(num_rows_ == num_cols_);
-  int M = num_rows_;
-  for (int i = 0;i < M;i++) {
-    for (int j = 0;j < i;j++) {
-      Real &a = (*this)(i, j), &b = (*this)(j, i);
-      std::swap(a, b);
-    }
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Init(
-    const int rows,
-    const int cols,
-    const int stride_type) {
-  if (rows * cols == 0) {
-    assert(rows == 0 && cols == 0);
-    this->num_rows_ = 0;
-    this->num_cols_ = 0;
-    this->stride_ = 0;
-    this->data_ = NULL;
-    return;
-  }
-  assert(rows > 0 && cols > 0);
-  int skip, stride;
-  size_t size;
-  void *data;  // aligned memory block
-
-  // compute the size of skip and real cols
-  skip = ((16 / sizeof(Real)) - cols % (16 / sizeof(Real)))
-      % (16 / sizeof(Real));
-  stride = cols + skip;
-  size = static_cast<size_t>(rows) * static_cast<size_t>(stride)
-      * sizeof(Real);
-
-  // allocate the memory and set the right dimensions and parameters
-  if (posix_memalign(&data, 32, size) == 0) {
-    MatrixBase<Real>::data_ = static_cast<Real *> (data);
-    MatrixBase<Real>::num_rows_ = rows;
-    MatrixBase<Real>::num_cols_ = cols;
-    MatrixBase<Real>::stride_  = (stride_type == kDefaultStride ? 
-      stride : cols);
-  } else {
-    throw std::bad_alloc();
-  }
-}
-
-template<typename Real>
-void Matrix<Real>::Resize(int rows,
-                          int cols,
-                          int resize_type,
-                          int stride_type) {
-  // the next block uses recursion to handle what we have to do if
-  // resize_type == kCopyData.
-  if (resize_type == kCopyData) {
-    if (this->data_ == NULL || rows == 0) {
-      // nothing to copy.
-      resize_type = kSetZero;  
-    } else if (rows == this->num_rows_ && cols == this->num_cols_) { 
-      // nothing to do.
-      return; 
-    } else {
-      // set tmp to a matrix of the desired size; if new matrix
-      // is bigger in some dimension, zero it.
-      int new_resize_type =
-          (rows > this->num_rows_ || cols > this->num_cols_) ? 
-              kSetZero : kUndefined;
-      Matrix<Real> tmp(rows, cols, new_resize_type);
-      int rows_min = std::min(rows, this->num_rows_),
-          cols_min = std::min(cols, this->num_cols_);
-      tmp.Range(0, rows_min, 0, cols_min).
-          CopyFromMat(this->Range(0, rows_min, 0, cols_min));
-      tmp.Swap(this);
-      // and now let tmp go out of scope, deleting what was in *this.
-      return;
-    }
-  }
-  // At this point, resize_type == kSetZero or kUndefined.
-
-  if (MatrixBase<Real>::data_ != NULL) {
-    if (rows == MatrixBase<Real>::num_rows_
-        && cols == MatrixBase<Real>::num_cols_) {
-      if (resize_type == kSetZero)
-        this->SetZero();
-      return;
-    }
-    else
-      Destroy();
-  }
-  Init(rows, cols, stride_type);
-  if (resize_type == kSetZero) MatrixBase<Real>::SetZero();
-}
-
-template<typename Real>
-void Matrix<Real>::Destroy() {
-  // we need to free the data block if it was defined
-  if (NULL != MatrixBase<Real>::data_) {
-    free( MatrixBase<Real>::data_);
-  }
-  MatrixBase<Real>::data_ = NULL;
-  MatrixBase<Real>::num_rows_ = MatrixBase<Real>::num_cols_
-      = MatrixBase<Real>::stride_ = 0;
-}
-
-template<typename Real>
-void VectorBase<Real>::SetZero() {
-  memset(data_, 0, dim_ * sizeof(Real));
-}
-
-template<typename Real>
-Status Matrix<Real>::Read(util::ReadableFile *fd) {
-  static const char *kSectionName = "MAT0";
-
-  // Read section name
-  int32_t section_size;
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(kSectionName));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&section_size));
-
-  int32_t num_rows, num_cols;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
-
-  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
-      (num_cols > 0 && num_rows > std::numeric_limits<int>::max() / num_cols)) {
-    return Status::Corruption(util::Format(
-        "Matrix::Read: unexpected size {} * {}: {}",
-        num_rows,
-        num_cols,
-        fd->filename()));
-  }
-
-  // Resize the matrix according to the new size
-  Resize(num_rows, num_cols, kUndefined);
-
-  Vector<Real> row_read;
-  for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
-    SubVector<Real> row = this->Row(row_idx);
-    PK_CHECK_STATUS(row_read.Read(fd));
-    if (row_read.Dim() != this->NumCols()) {
-      return Status::Corruption(util::Format(
-          "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-          this->NumCols(),
-          row_read.Dim(),
-          fd->filename()));
-    }
-
-    row.CopyFromVec(row_read);
-  }
-
-  return Status::OK();
-}
-
-// Constructor... note that this is not const-safe as it would
-// be quite complicated to implement a "const SubMatrix" class that
-// would not allow its contents to be changed.
-template<typename Real>
-SubMatrix<Real>::SubMatrix(const MatrixBase<Real> &M,
-                           int ro,
-                           int r,
-                           int co,
-                           int c) {
-  if (r == 0 || c == 0) {
-    // we support the empty sub-matrix as a special case.
-    assert(c == 0 && r == 0);
-    this->data_ = NULL;
-    this->num_cols_ = 0;
-    this->num_rows_ = 0;
-    this->stride_ = 0;
-    return;
-  }
-  assert(ro < (M.num_rows_) && co < M.num_cols_ &&
-         r <= M.num_rows_ - ro && c <= M.num_cols_ - co);
-  // point to the begining of window
-  MatrixBase<Real>::num_rows_ = r;
-  MatrixBase<Real>::num_cols_ = c;
-  MatrixBase<Real>::stride_ = M.Stride();
-  MatrixBase<Real>::data_ = M.Data_workaround() +
-      static_cast<size_t>(co) +
-      static_cast<size_t>(ro) * static_cast<size_t>(M.Stride());
-}
-
-
-template<typename Real>
-SubMatrix<Real>::SubMatrix(Real *data,
-                           int num_rows,
-                           int num_cols,
-                           int stride):
-    MatrixBase<Real>(data, num_cols, num_rows, stride) { // caution: reversed order!
-  if (data == NULL) {
-    assert(num_rows * num_cols == 0);
-    this->num_rows_ = 0;
-    this->num_cols_ = 0;
-    this->stride_ = 0;
-  } else {
-    assert(this->stride_ >= this->num_cols_);
-  }
-}
-
-template<typename Real>
-void MatrixBase<Real>::Scale(Real scale) {
-  for (int r = 0; r < NumRows(); ++r) {
-    Row(r).Scale(scale);
-  }
-}
-
-template<typename Real>
-void MatrixBase<Real>::SetZero() {
-  if (num_cols_ == stride_)
-    memset(data_, 0, sizeof(Real)*num_rows_*num_cols_);
-  else
-    for (int row = 0; row < num_rows_; row++)
-      memset(data_ + row*stride_, 0, sizeof(Real)*num_cols_);
-}
-
-template<typename Real>
-void MatrixBase<Real>::SetRand() {
-  for (int row = 0; row < num_rows_; row++) {
-    for (int col = 0; col < num_cols_; col++) {
-      (*this)(row, col) = static_cast<Real>(rand()) / RAND_MAX;
-    }
-  }
-}
-
-template class Matrix<float>;
-template class Matrix<double>;
-template class MatrixBase<float>;
-template class MatrixBase<double>;
-template class SubMatrix<float>;
-template class SubMatrix<double>;
-template class Matrix<uint8_t>;
-template class MatrixBase<uint8_t>;
-
-
-// C <- A * B
-template<typename Real>
-void SimpleMatMat(
-    const MatrixBase<Real> &A,
-    const MatrixBase<Real> &B,
-    MatrixBase<Real> *C) {
-  assert(B.NumCols() == C->NumCols());
-  assert(A.NumRows() == C->NumRows());
-  assert(A.NumCols() == B.NumRows());
-
-  C->SetZero();
-  for (int row = 0; row < A.NumRows(); ++row) {
-    for (int col = 0; col < B.NumCols(); ++col) {
-      for (int k = 0; k < A.NumCols(); ++k) {
-        (*C)(row, col) += A(row, k) * B(k, col);
-      }
-    }
-  }
-}
-
-template 
-void SimpleMatMat<float>(
-    const MatrixBase<float> &A,
-    const MatrixBase<float> &B,
-    MatrixBase<float> *C);
-
-void MatMat(
-    const MatrixBase<float> &A,
-    const MatrixBase<float> &B,
-    MatrixBase<float> *C) {
-  assert(A.NumCols() == B.NumRows() &&
-         A.NumRows() == C->NumRows() &&
-         B.NumCols() == C->NumCols());
-
-  cblas_sgemm(
-      CblasRowMajor,
-      CblasNoTrans,
-      CblasNoTrans,
-      A.NumRows(),
-      B.NumCols(),
-      A.NumCols(),
-      1.0f,
-      A.Data(),
-      A.Stride(),
-      B.Data(),
-      B.Stride(),
-      0.0f,
-      C->Data(),
-      C->Stride());
-}
-
-namespace {
-
-// Find min and max value in Matrix. Assuming data in src was continuous
-// (src.Stride() == src.NumCols())
-void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
-  float min = std::numeric_limits<float>::max(),
-        max = std::numeric_limits<float>::min();
-
-  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
-    float val = src.Data()[i];
-    if (val > max) {
-      max = val;
-    }
-    if (val < min) {
-      min = val;
-    }
-  }
-
-  *pmin = min;
-  *pmax = max;
-}
-
-// Compute the 8-bit quantization parameters for matrix
-void ComputeQuantizationParams(const MatrixBase<float> &src,
-                               QuantizationParams *quant_params) {
-  // Find min and max value in matrix
-  float min, max;
-  FindMinMax(src, &min, &max);
-
-  double scale = (max - min) / 255.0;
-
-  // Find zero-point
-  double f_zero_point = -min / scale;
-  int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
-
-  quant_params->zero_point = zero_point;
-  quant_params->scale = static_cast<float>(scale);
-}
-
-}  // namespace 
-
-void Quantize(const MatrixBase<float> &src, Matrix<uint8_t> *dest,
-              QuantizationParams *params) {
-  assert(src.Stride() == src.NumCols());
-  assert(src.NumCols() != 0 && src.NumRows() != 0);
-
-  ComputeQuantizationParams(src, params);
-
-  // Allocate 8-bit dest matrix
-  if (dest->NumCols() != src.NumCols() || dest->NumRows() != src.NumRows()) {
-    dest->Resize(src.NumRows(), src.NumCols(), Matrix<uint8_t>::kUndefined);
-  }
-
-  // Quantize
-  const float *src_data = src.Data();
-  uint8_t *dest_data = dest->Data();
-  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
-    float val = src_data[i];
-    val = val / params->scale + params->zero_point;
-    val = std::max(0.0f, std::min(val, 255.0f));
-    dest_data[i] = static_cast<uint8_t>(roundf(val));
-  }
-}
-
-void MatMat_U8U8F32(
-    const MatrixBase<uint8_t> &A,
-    const QuantizationParams &quant_params_A,
-    const MatrixBase<uint8_t> &B,
-    const QuantizationParams &quant_params_B,
-    MatrixBase<float> *C) {
-  assert(A.NumCols() == B.NumRows() &&
-         A.NumRows() == C->NumRows() &&
-         B.NumCols() == C->NumCols());
-    assert(A.NumCols() * A.NumRows() > 1 &&
-           B.NumCols() * B.NumRows() > 1);
-  int32_t offset_A = -quant_params_A.zero_point;
-  int32_t offset_B = -quant_params_B.zero_point;
-
-  float offset_C = quant_params_A.scale * quant_params_B.scale;
-  EightBitIntGemm(true,
-                  true,
-                  true,
-                  A.NumRows(),
-                  B.NumCols(),
-                  A.NumCols(),
-                  A.Data(),
-                  offset_A,
-                  A.NumCols(),
-                  B.Data(),
-                  offset_B,
-                  B.NumCols(),
-                  C->Data(),
-                  offset_C,
-                  C->NumCols(),
-                  BitDepthSetting::A8B8);
-}
-
-
-}  // namespace pocketkaldi
+// 2017-01-27
+
+#include "matrix.h"
+
+#include <assert.h>
+#include <stdlib.h>
+#include <string.h>
+#include <math.h>
+#include <cblas.h>
+#include <limits>
+#include "util.h"
+
+#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
+
+namespace pocketkaldi {
+
+using gemmlowp::eight_bit_int_gemm::BitDepthSetting;
+using gemmlowp::eight_bit_int_gemm::EightBitIntGemm;
+
+template<typename Real>
+void MatrixBase<Real>::CopyFromMat(const MatrixBase<Real> &M, int trans) {
+  if (trans == kNoTrans) {
+    assert(num_rows_ == M.NumRows() && num_cols_ == M.NumCols());
+    for (int i = 0; i < num_rows_; i++) {
+      (*this).Row(i).CopyFromVec(M.Row(i));
+    }
+  } else {
+    assert(num_cols_ == M.NumRows() && num_rows_ == M.NumCols());
+    int this_stride = stride_, other_stride = M.Stride();
+    Real *this_data = data_;
+    const Real *other_data = M.Data();
+    for (int i = 0; i < num_rows_; i++) {
+      for (int j = 0; j < num_cols_; j++) {
+        this_data[i * this_stride + j] = other_data[j * other_stride + i];
+      }
+    }
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Swap(Matrix<Real> *other) {
+  std::swap(this->data_, other->data_);
+  std::swap(this->num_cols_, other->num_cols_);
+  std::swap(this->num_rows_, other->num_rows_);
+  std::swap(this->stride_, other->stride_);
+}
+
+template<typename Real>
+void MatrixBase<Real>::Transpose() {
+  assert(num_rows_ == num_cols_);
+  int M = num_rows_;
+  for (int i = 0;i < M;i++) {
+    for (int j = 0;j < i;j++) {
+      Real &a = (*this)(i, j), &b = (*this)(j, i);
+      std::swap(a, b);
+    }
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Init(
+    const int rows,
+    const int cols,
+    const int stride_type) {
+  if (rows * cols == 0) {
+    assert(rows == 0 && cols == 0);
+    this->num_rows_ = 0;
+    this->num_cols_ = 0;
+    this->stride_ = 0;
+    this->data_ = NULL;
+    return;
+  }
+  assert(rows > 0 && cols > 0);
+  int skip, stride;
+  size_t size;
+  void *data;  // aligned memory block
+
+  // compute the size of skip and real cols
+  skip = ((16 / sizeof(Real)) - cols % (16 / sizeof(Real)))
+      % (16 / sizeof(Real));
+  stride = cols + skip;
+  size = static_cast<size_t>(rows) * static_cast<size_t>(stride)
+      * sizeof(Real);
+
+  // allocate the memory and set the right dimensions and parameters
+  if (posix_memalign(&data, 32, size) == 0) {
+    MatrixBase<Real>::data_ = static_cast<Real *> (data);
+    MatrixBase<Real>::num_rows_ = rows;
+    MatrixBase<Real>::num_cols_ = cols;
+    MatrixBase<Real>::stride_  = (stride_type == kDefaultStride ? 
+      stride : cols);
+  } else {
+    throw std::bad_alloc();
+  }
+}
+
+template<typename Real>
+void Matrix<Real>::Resize(int rows,
+                          int cols,
+                          int resize_type,
+                          int stride_type) {
+  // the next block uses recursion to handle what we have to do if
+  // resize_type == kCopyData.
+  if (resize_type == kCopyData) {
+    if (this->data_ == NULL || rows == 0) {
+      // nothing to copy.
+      resize_type = kSetZero;  
+    } else if (rows == this->num_rows_ && cols == this->num_cols_) { 
+      // nothing to do.
+      return; 
+    } else {
+      // set tmp to a matrix of the desired size; if new matrix
+      // is bigger in some dimension, zero it.
+      int new_resize_type =
+          (rows > this->num_rows_ || cols > this->num_cols_) ? 
+              kSetZero : kUndefined;
+      Matrix<Real> tmp(rows, cols, new_resize_type);
+      int rows_min = std::min(rows, this->num_rows_),
+          cols_min = std::min(cols, this->num_cols_);
+      tmp.Range(0, rows_min, 0, cols_min).
+          CopyFromMat(this->Range(0, rows_min, 0, cols_min));
+      tmp.Swap(this);
+      // and now let tmp go out of scope, deleting what was in *this.
+      return;
+    }
+  }
+  // At this point, resize_type == kSetZero or kUndefined.
+
+  if (MatrixBase<Real>::data_ != NULL) {
+    if (rows == MatrixBase<Real>::num_rows_
+        && cols == MatrixBase<Real>::num_cols_) {
+      if (resize_type == kSetZero)
+        this->SetZero();
+      return;
+    }
+    else
+      Destroy();
+  }
+  Init(rows, cols, stride_type);
+  if (resize_type == kSetZero) MatrixBase<Real>::SetZero();
+}
+
+template<typename Real>
+void Matrix<Real>::Destroy() {
+  // we need to free the data block if it was defined
+  if (NULL != MatrixBase<Real>::data_) {
+    free( MatrixBase<Real>::data_);
+  }
+  MatrixBase<Real>::data_ = NULL;
+  MatrixBase<Real>::num_rows_ = MatrixBase<Real>::num_cols_
+      = MatrixBase<Real>::stride_ = 0;
+}
+
+template<typename Real>
+void VectorBase<Real>::SetZero() {
+  memset(data_, 0, dim_ * sizeof(Real));
+}
+
+template<typename Real>
+Status Matrix<Real>::Read(util::ReadableFile *fd) {
+  static const char *kSectionName = "MAT0";
+
+  // Read section name
+  int32_t section_size;
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(kSectionName));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&section_size));
+
+  int32_t num_rows, num_cols;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
+
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
+      (num_cols > 0 && num_rows > std::numeric_limits<int>::max() / num_cols)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} * {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
+  // Resize the matrix according to the new size
+  Resize(num_rows, num_cols, kUndefined);
+
+  Vector<Real> row_read;
+  for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
+    SubVector<Real> row = this->Row(row_idx);
+    PK_CHECK_STATUS(row_read.Read(fd));
+    if (row_read.Dim() != this->NumCols()) {
+      return Status::Corruption(util::Format(
+          "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
+          this->NumCols(),
+          row_read.Dim(),
+          fd->filename()));
+    }
+
+    row.CopyFromVec(row_read);
+  }
+
+  return Status::OK();
+}
+
+// Constructor... note that this is not const-safe as it would
+// be quite complicated to implement a "const SubMatrix" class that
+// would not allow its contents to be changed.
+template<typename Real>
+SubMatrix<Real>::SubMatrix(const MatrixBase<Real> &M,
+                           int ro,
+                           int r,
+                           int co,
+                           int c) {
+  if (r == 0 || c == 0) {
+    // we support the empty sub-matrix as a special case.
+    assert(c == 0 && r == 0);
+    this->data_ = NULL;
+    this->num_cols_ = 0;
+    this->num_rows_ = 0;
+    this->stride_ = 0;
+    return;
+  }
+  assert(ro < (M.num_rows_) && co < M.num_cols_ &&
+         r <= M.num_rows_ - ro && c <= M.num_cols_ - co);
+  // point to the begining of window
+  MatrixBase<Real>::num_rows_ = r;
+  MatrixBase<Real>::num_cols_ = c;
+  MatrixBase<Real>::stride_ = M.Stride();
+  MatrixBase<Real>::data_ = M.Data_workaround() +
+      static_cast<size_t>(co) +
+      static_cast<size_t>(ro) * static_cast<size_t>(M.Stride());
+}
+
+
+template<typename Real>
+SubMatrix<Real>::SubMatrix(Real *data,
+                           int num_rows,
+                           int num_cols,
+                           int stride):
+    MatrixBase<Real>(data, num_cols, num_rows, stride) { // caution: reversed order!
+  if (data == NULL) {
+    assert(num_rows * num_cols == 0);
+    this->num_rows_ = 0;
+    this->num_cols_ = 0;
+    this->stride_ = 0;
+  } else {
+    assert(this->stride_ >= this->num_cols_);
+  }
+}
+
+template<typename Real>
+void MatrixBase<Real>::Scale(Real scale) {
+  for (int r = 0; r < NumRows(); ++r) {
+    Row(r).Scale(scale);
+  }
+}
+
+template<typename Real>
+void MatrixBase<Real>::SetZero() {
+  if (num_cols_ == stride_)
+    memset(data_, 0, sizeof(Real)*num_rows_*num_cols_);
+  else
+    for (int row = 0; row < num_rows_; row++)
+      memset(data_ + row*stride_, 0, sizeof(Real)*num_cols_);
+}
+
+template<typename Real>
+void MatrixBase<Real>::SetRand() {
+  for (int row = 0; row < num_rows_; row++) {
+    for (int col = 0; col < num_cols_; col++) {
+      (*this)(row, col) = static_cast<Real>(rand()) / RAND_MAX;
+    }
+  }
+}
+
+template class Matrix<float>;
+template class Matrix<double>;
+template class MatrixBase<float>;
+template class MatrixBase<double>;
+template class SubMatrix<float>;
+template class SubMatrix<double>;
+template class Matrix<uint8_t>;
+template class MatrixBase<uint8_t>;
+
+
+// C <- A * B
+template<typename Real>
+void SimpleMatMat(
+    const MatrixBase<Real> &A,
+    const MatrixBase<Real> &B,
+    MatrixBase<Real> *C) {
+  assert(B.NumCols() == C->NumCols());
+  assert(A.NumRows() == C->NumRows());
+  assert(A.NumCols() == B.NumRows());
+
+  C->SetZero();
+  for (int row = 0; row < A.NumRows(); ++row) {
+    for (int col = 0; col < B.NumCols(); ++col) {
+      for (int k = 0; k < A.NumCols(); ++k) {
+        (*C)(row, col) += A(row, k) * B(k, col);
+      }
+    }
+  }
+}
+
+template 
+void SimpleMatMat<float>(
+    const MatrixBase<float> &A,
+    const MatrixBase<float> &B,
+    MatrixBase<float> *C);
+
+void MatMat(
+    const MatrixBase<float> &A,
+    const MatrixBase<float> &B,
+    MatrixBase<float> *C) {
+  assert(A.NumCols() == B.NumRows() &&
+         A.NumRows() == C->NumRows() &&
+         B.NumCols() == C->NumCols());
+
+  cblas_sgemm(
+      CblasRowMajor,
+      CblasNoTrans,
+      CblasNoTrans,
+      A.NumRows(),
+      B.NumCols(),
+      A.NumCols(),
+      1.0f,
+      A.Data(),
+      A.Stride(),
+      B.Data(),
+      B.Stride(),
+      0.0f,
+      C->Data(),
+      C->Stride());
+}
+
+namespace {
+
+// Find min and max value in Matrix. Assuming data in src was continuous
+// (src.Stride() == src.NumCols())
+void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
+  float min = std::numeric_limits<float>::max(),
+        max = std::numeric_limits<float>::min();
+
+  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
+    float val = src.Data()[i];
+    if (val > max) {
+      max = val;
+    }
+    if (val < min) {
+      min = val;
+    }
+  }
+
+  *pmin = min;
+  *pmax = max;
+}
+
+// Compute the 8-bit quantization parameters for matrix
+void ComputeQuantizationParams(const MatrixBase<float> &src,
+                               QuantizationParams *quant_params) {
+  // Find min and max value in matrix
+  float min, max;
+  FindMinMax(src, &min, &max);
+
+  double scale = (max - min) / 255.0;
+
+  // Find zero-point
+  double f_zero_point = -min / scale;
+  int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
+
+  quant_params->zero_point = zero_point;
+  quant_params->scale = static_cast<float>(scale);
+}
+
+}  // namespace 
+
+void Quantize(const MatrixBase<float> &src, Matrix<uint8_t> *dest,
+              QuantizationParams *params) {
+  assert(src.Stride() == src.NumCols());
+  assert(src.NumCols() != 0 && src.NumRows() != 0);
+
+  ComputeQuantizationParams(src, params);
+
+  // Allocate 8-bit dest matrix
+  if (dest->NumCols() != src.NumCols() || dest->NumRows() != src.NumRows()) {
+    dest->Resize(src.NumRows(), src.NumCols(), Matrix<uint8_t>::kUndefined);
+  }
+
+  // Quantize
+  const float *src_data = src.Data();
+  uint8_t *dest_data = dest->Data();
+  for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
+    float val = src_data[i];
+    val = val / params->scale + params->zero_point;
+    val = std::max(0.0f, std::min(val, 255.0f));
+    dest_data[i] = static_cast<uint8_t>(roundf(val));
+  }
+}
+
+void MatMat_U8U8F32(
+    const MatrixBase<uint8_t> &A,
+    const QuantizationParams &quant_params_A,
+    const MatrixBase<uint8_t> &B,
+    const QuantizationParams &quant_params_B,
+    MatrixBase<float> *C) {
+  assert(A.NumCols() == B.NumRows() &&
+         A.NumRows() == C->NumRows() &&
+         B.NumCols() == C->NumCols());
+    assert(A.NumCols() * A.NumRows() > 1 &&
+           B.NumCols() * B.NumRows() > 1);
+  int32_t offset_A = -quant_params_A.zero_point;
+  int32_t offset_B = -quant_params_B.zero_point;
+
+  float offset_C = quant_params_A.scale * quant_params_B.scale;
+  EightBitIntGemm(true,
+                  true,
+                  true,
+                  A.NumRows(),
+                  B.NumCols(),
+                  A.NumCols(),
+                  A.Data(),
+                  offset_A,
+                  A.NumCols(),
+                  B.Data(),
+                  offset_B,
+                  B.NumCols(),
+                  C->Data(),
+                  offset_C,
+                  C->NumCols(),
+                  BitDepthSetting::A8B8);
+}
+
+
+}  // namespace pocketkaldi
diff --git a/src/nnet.cc b/src/nnet.cc
index 55adaaa..1aca60b 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -1,315 +1,315 @@
-// Created at 2017-03-13
-
-#include "nnet.h"
-
-#include <assert.h>
-#include <math.h>
-
-namespace pocketkaldi {
-
-LinearLayer::LinearLayer() {}
-LinearLayer::LinearLayer(
-    const MatrixBase<float> &W,
-    const VectorBase<float> &b) {
-  assert(b.Dim() == W.NumRows() && 
-         "linear layer: dimension mismatch in W and b");
-  W_.Resize(W.NumCols(), W.NumRows());
-  W_.CopyFromMat(W, MatrixBase<float>::kTrans);
-  b_.Resize(b.Dim());
-  b_.CopyFromVec(b);
-}
-
-void LinearLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(b_.Dim() != 0 && "LinearLayer is not initialized");
-  out->Resize(in.NumRows(), W_.NumCols());
-
-  // xW
-  MatMat(in, W_, out);
-
-  // + b
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.AddVec(1.0f, b_);
-  }
-}
-
-Status LinearLayer::Read(util::ReadableFile *fd) {
-  PK_CHECK_STATUS(W_.Read(fd));
-  PK_CHECK_STATUS(b_.Read(fd));
-
-  return Status::OK();
-}
-
-SpliceLayer::SpliceLayer() {}
-SpliceLayer::SpliceLayer(const std::vector<int> &indices):
-    indices_(indices) {
-}
-
-void SpliceLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(indices_.size() != 0 && "SpliceLayer is not initialized");
-  if (in.NumRows() == 0 || in.NumCols() == 0) return;
-
-  int out_cols = indices_.size() * in.NumCols();
-  out->Resize(in.NumRows(), out_cols);
-
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> out_row = out->Row(row_idx);
-    int offset = 0;
-
-    // Left context
-    for (int c : indices_) {
-      int cnt_idx = row_idx + c;
-      if (cnt_idx < 0) cnt_idx = 0;
-      if (cnt_idx > in.NumRows() - 1) cnt_idx = in.NumRows() - 1;
-      SubVector<float> v = out_row.Range(offset, in.NumCols());
-      v.CopyFromVec(in.Row(cnt_idx));
-      offset += in.NumCols();
-    }
-
-    assert(offset == out_cols && "splice: offset and size mismatch");
-  }
-}
-
-Status SpliceLayer::Read(util::ReadableFile *fd) {
-  // Clean indices_
-  indices_.clear();
-
-  int32_t num_indcies = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
-  if (num_indcies < 0) {
-    return Status::Corruption("SpliceLayer: unexpected num_indcies");
-  }
-
-  // Read each index
-  int32_t index = 0;
-  for (int i = 0; i < num_indcies; ++i) {
-    PK_CHECK_STATUS(fd->ReadValue<int32_t>(&index));
-    indices_.push_back(index);
-  }
-
-  return Status::OK();
-}
-
-BatchNormLayer::BatchNormLayer() {}
-BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
-                               const VectorBase<float> &offset) {
-  scale_.Resize(scale.Dim());
-  scale_.CopyFromVec(scale);
-  offset_.Resize(offset.Dim());
-  offset_.CopyFromVec(offset);
-}
-
-void BatchNormLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(scale_.Dim() > 0 && "BatchNormLayer is not initialized");
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.MulElements(scale_);
-    row.AddVec(1.0, offset_);
-  }
-}
-
-Status BatchNormLayer::Read(util::ReadableFile *fd) {
-  PK_CHECK_STATUS(scale_.Read(fd));
-  PK_CHECK_STATUS(offset_.Read(fd));
-
-  return Status::OK();
-}
-
-void SoftmaxLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.ApplySoftMax();
-  }
-}
-
-void LogSoftmaxLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    row.ApplyLogSoftMax();
-  }
-}
-
-
-void ReLULayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-    for (int col_idx = 0; col_idx < row.Dim(); ++ col_idx) {
-      if (row(col_idx) < 0.0f) row(col_idx) = 0.0f;
-    }
-  }
-}
-
-void NormalizeLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  float D = in.NumCols();
-  out->Resize(in.NumRows(), in.NumCols());
-  out->CopyFromMat(in);
-  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
-    SubVector<float> row = out->Row(row_idx);
-
-    double squared_sum = row.VecVec(row);
-    float scale = static_cast<float>(sqrt(D / squared_sum));
-    row.Scale(scale);
-  }
-}
-
-
-NarrowLayer::NarrowLayer(): narrow_left_(-1), narrow_right_(-1) {}
-NarrowLayer::NarrowLayer(int narrow_left, int narrow_right):
-    narrow_left_(narrow_left), narrow_right_(narrow_right) {}
-
-void NarrowLayer::Propagate(
-    const MatrixBase<float> &in,
-    Matrix<float> *out) const {
-  assert(narrow_left_ >= 0 && "NarrowLayer is not initialized");
-  if (in.NumRows() <= narrow_left_ + narrow_right_) {
-    // Do nothing if no enough rows to narrow
-    out->Resize(in.NumRows(), in.NumCols());
-    out->CopyFromMat(in);
-  } else {
-    out->Resize(
-        in.NumRows() - narrow_left_ - narrow_right_,
-        in.NumCols());
-    SubMatrix<float> narrow(
-        in,
-        narrow_left_,
-        in.NumRows() - narrow_left_ - narrow_right_,
-        0,
-        in.NumCols());
-    out->CopyFromMat(narrow);
-  }
-}
-
-Status NarrowLayer::Read(util::ReadableFile *fd) {
-  int32_t narrow_left = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_left));
-
-  int32_t narrow_right = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
-
-  narrow_right_ = narrow_right;
-  narrow_left_ = narrow_left;
-
-  return Status::OK();
-}
-
-
-Nnet::Nnet(): left_context_(0), right_context_(0) {
-}
-
-Status Nnet::ReadLayer(util::ReadableFile *fd) {
-  Matrix<float> W;
-  Vector<float> b;
-
-  // Read section name
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_LAYER_SECTION));
-
-  // Read layer type
-  int layer_type;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&layer_type));
-
-  // Read additional parameters and initialize layer
-  std::unique_ptr<Layer> layer = nullptr;
-  switch (layer_type) {
-  case Layer::kLinear:
-    layer = std::unique_ptr<Layer>(new LinearLayer());
-    break;
-  case Layer::kReLU:
-    layer = std::unique_ptr<Layer>(new ReLULayer());
-    break;
-  case Layer::kNormalize:
-    layer = std::unique_ptr<Layer>(new NormalizeLayer());
-    break;
-  case Layer::kSoftmax:
-    layer = std::unique_ptr<Layer>(new SoftmaxLayer());
-    break;
-  case Layer::kSplice:
-    layer = std::unique_ptr<Layer>(new SpliceLayer());
-    break;
-  case Layer::kBatchNorm:
-    layer = std::unique_ptr<Layer>(new BatchNormLayer());
-    break;
-  case Layer::kLogSoftmax:
-    layer = std::unique_ptr<Layer>(new LogSoftmaxLayer());
-    break;
-  case Layer::kNarrow:
-    layer = std::unique_ptr<Layer>(new NarrowLayer());
-    break;
-  default:
-    return Status::Corruption(util::Format(
-        "read_layer: unexpected layer type: {} ({})",
-        layer_type,
-        fd->filename()));
-  }
-
-  // Read the content of this layer (if have)
-  PK_CHECK_STATUS(layer->Read(fd));
-  layers_.emplace_back(std::move(layer));
-
-  return Status::OK();
-}
-
-Status Nnet::Read(util::ReadableFile *fd) {
-  // Read section name
-  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_SECTION));
-
-  int32_t left_context = 0, right_context = 0;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&left_context));
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&right_context));
-  left_context_ = left_context;
-  right_context_ = right_context;
-
-
-  int32_t num_layers;
-  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
-  if (num_layers < 0) {
-    return Status::Corruption(util::Format(
-        "Nnet: unexpected num_layers: {} ({})",
-        num_layers,
-        fd->filename()));
-  }
-
-  // Read each layers
-  for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-    PK_CHECK_STATUS(ReadLayer(fd));
-  }
-
-  return Status::OK();
-}
-
-void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
-  Matrix<float> layer_input, layer_output;
-  
-  layer_input.Resize(in.NumRows(), in.NumCols());
-  layer_input.CopyFromMat(in);
-  for (const std::unique_ptr<Layer> &layer : layers_) {
-    layer->Propagate(layer_input, &layer_output);
-    layer_input.Swap(&layer_output);
-  }
-
-  out->Resize(layer_input.NumRows(), layer_input.NumCols());
-  out->CopyFromMat(layer_input);
-}
-
-}  // namespace pocketkaldi
+// Created at 2017-03-13
+
+#include "nnet.h"
+
+#include <assert.h>
+#include <math.h>
+
+namespace pocketkaldi {
+
+LinearLayer::LinearLayer() {}
+LinearLayer::LinearLayer(
+    const MatrixBase<float> &W,
+    const VectorBase<float> &b) {
+  assert(b.Dim() == W.NumRows() && 
+         "linear layer: dimension mismatch in W and b");
+  W_.Resize(W.NumCols(), W.NumRows());
+  W_.CopyFromMat(W, MatrixBase<float>::kTrans);
+  b_.Resize(b.Dim());
+  b_.CopyFromVec(b);
+}
+
+void LinearLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(b_.Dim() != 0 && "LinearLayer is not initialized");
+  out->Resize(in.NumRows(), W_.NumCols());
+
+  // xW
+  MatMat(in, W_, out);
+
+  // + b
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.AddVec(1.0f, b_);
+  }
+}
+
+Status LinearLayer::Read(util::ReadableFile *fd) {
+  PK_CHECK_STATUS(W_.Read(fd));
+  PK_CHECK_STATUS(b_.Read(fd));
+
+  return Status::OK();
+}
+
+SpliceLayer::SpliceLayer() {}
+SpliceLayer::SpliceLayer(const std::vector<int> &indices):
+    indices_(indices) {
+}
+
+void SpliceLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(indices_.size() != 0 && "SpliceLayer is not initialized");
+  if (in.NumRows() == 0 || in.NumCols() == 0) return;
+
+  int out_cols = indices_.size() * in.NumCols();
+  out->Resize(in.NumRows(), out_cols);
+
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> out_row = out->Row(row_idx);
+    int offset = 0;
+
+    // Left context
+    for (int c : indices_) {
+      int cnt_idx = row_idx + c;
+      if (cnt_idx < 0) cnt_idx = 0;
+      if (cnt_idx > in.NumRows() - 1) cnt_idx = in.NumRows() - 1;
+      SubVector<float> v = out_row.Range(offset, in.NumCols());
+      v.CopyFromVec(in.Row(cnt_idx));
+      offset += in.NumCols();
+    }
+
+    assert(offset == out_cols && "splice: offset and size mismatch");
+  }
+}
+
+Status SpliceLayer::Read(util::ReadableFile *fd) {
+  // Clean indices_
+  indices_.clear();
+
+  int32_t num_indcies = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
+  if (num_indcies < 0) {
+    return Status::Corruption("SpliceLayer: unexpected num_indcies");
+  }
+
+  // Read each index
+  int32_t index = 0;
+  for (int i = 0; i < num_indcies; ++i) {
+    PK_CHECK_STATUS(fd->ReadValue<int32_t>(&index));
+    indices_.push_back(index);
+  }
+
+  return Status::OK();
+}
+
+BatchNormLayer::BatchNormLayer() {}
+BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
+                               const VectorBase<float> &offset) {
+  scale_.Resize(scale.Dim());
+  scale_.CopyFromVec(scale);
+  offset_.Resize(offset.Dim());
+  offset_.CopyFromVec(offset);
+}
+
+void BatchNormLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(scale_.Dim() > 0 && "BatchNormLayer is not initialized");
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.MulElements(scale_);
+    row.AddVec(1.0, offset_);
+  }
+}
+
+Status BatchNormLayer::Read(util::ReadableFile *fd) {
+  PK_CHECK_STATUS(scale_.Read(fd));
+  PK_CHECK_STATUS(offset_.Read(fd));
+
+  return Status::OK();
+}
+
+void SoftmaxLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.ApplySoftMax();
+  }
+}
+
+void LogSoftmaxLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    row.ApplyLogSoftMax();
+  }
+}
+
+
+void ReLULayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+    for (int col_idx = 0; col_idx < row.Dim(); ++ col_idx) {
+      if (row(col_idx) < 0.0f) row(col_idx) = 0.0f;
+    }
+  }
+}
+
+void NormalizeLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  float D = in.NumCols();
+  out->Resize(in.NumRows(), in.NumCols());
+  out->CopyFromMat(in);
+  for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
+    SubVector<float> row = out->Row(row_idx);
+
+    double squared_sum = row.VecVec(row);
+    float scale = static_cast<float>(sqrt(D / squared_sum));
+    row.Scale(scale);
+  }
+}
+
+
+NarrowLayer::NarrowLayer(): narrow_left_(-1), narrow_right_(-1) {}
+NarrowLayer::NarrowLayer(int narrow_left, int narrow_right):
+    narrow_left_(narrow_left), narrow_right_(narrow_right) {}
+
+void NarrowLayer::Propagate(
+    const MatrixBase<float> &in,
+    Matrix<float> *out) const {
+  assert(narrow_left_ >= 0 && "NarrowLayer is not initialized");
+  if (in.NumRows() <= narrow_left_ + narrow_right_) {
+    // Do nothing if no enough rows to narrow
+    out->Resize(in.NumRows(), in.NumCols());
+    out->CopyFromMat(in);
+  } else {
+    out->Resize(
+        in.NumRows() - narrow_left_ - narrow_right_,
+        in.NumCols());
+    SubMatrix<float> narrow(
+        in,
+        narrow_left_,
+        in.NumRows() - narrow_left_ - narrow_right_,
+        0,
+        in.NumCols());
+    out->CopyFromMat(narrow);
+  }
+}
+
+Status NarrowLayer::Read(util::ReadableFile *fd) {
+  int32_t narrow_left = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_left));
+
+  int32_t narrow_right = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
+
+  narrow_right_ = narrow_right;
+  narrow_left_ = narrow_left;
+
+  return Status::OK();
+}
+
+
+Nnet::Nnet(): left_context_(0), right_context_(0) {
+}
+
+Status Nnet::ReadLayer(util::ReadableFile *fd) {
+  Matrix<float> W;
+  Vector<float> b;
+
+  // Read section name
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_LAYER_SECTION));
+
+  // Read layer type
+  int layer_type;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&layer_type));
+
+  // Read additional parameters and initialize layer
+  std::unique_ptr<Layer> layer = nullptr;
+  switch (layer_type) {
+  case Layer::kLinear:
+    layer = std::unique_ptr<Layer>(new LinearLayer());
+    break;
+  case Layer::kReLU:
+    layer = std::unique_ptr<Layer>(new ReLULayer());
+    break;
+  case Layer::kNormalize:
+    layer = std::unique_ptr<Layer>(new NormalizeLayer());
+    break;
+  case Layer::kSoftmax:
+    layer = std::unique_ptr<Layer>(new SoftmaxLayer());
+    break;
+  case Layer::kSplice:
+    layer = std::unique_ptr<Layer>(new SpliceLayer());
+    break;
+  case Layer::kBatchNorm:
+    layer = std::unique_ptr<Layer>(new BatchNormLayer());
+    break;
+  case Layer::kLogSoftmax:
+    layer = std::unique_ptr<Layer>(new LogSoftmaxLayer());
+    break;
+  case Layer::kNarrow:
+    layer = std::unique_ptr<Layer>(new NarrowLayer());
+    break;
+  default:
+    return Status::Corruption(util::Format(
+        "read_layer: unexpected layer type: {} ({})",
+        layer_type,
+        fd->filename()));
+  }
+
+  // Read the content of this layer (if have)
+  PK_CHECK_STATUS(layer->Read(fd));
+  layers_.emplace_back(std::move(layer));
+
+  return Status::OK();
+}
+
+Status Nnet::Read(util::ReadableFile *fd) {
+  // Read section name
+  PK_CHECK_STATUS(fd->ReadAndVerifyString(PK_NNET_SECTION));
+
+  int32_t left_context = 0, right_context = 0;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&left_context));
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&right_context));
+  left_context_ = left_context;
+  right_context_ = right_context;
+
+
+  int32_t num_layers;
+  PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet: unexpected num_layers: {} ({})",
+        num_layers,
+        fd->filename()));
+  }
+
+  // Read each layers
+  for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
+    PK_CHECK_STATUS(ReadLayer(fd));
+  }
+
+  return Status::OK();
+}
+
+void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
+  Matrix<float> layer_input, layer_output;
+  
+  layer_input.Resize(in.NumRows(), in.NumCols());
+  layer_input.CopyFromMat(in);
+  for (const std::unique_ptr<Layer> &layer : layers_) {
+    layer->Propagate(layer_input, &layer_output);
+    layer_input.Swap(&layer_output);
+  }
+
+  out->Resize(layer_input.NumRows(), layer_input.NumCols());
+  out->CopyFromMat(layer_input);
+}
+
+}  // namespace pocketkaldi
diff --git a/src/pool.h b/src/pool.h
index 20398cd..bf52ac6 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -1,254 +1,254 @@
-// pool.h --- Created at 2016-05-17
-
-#ifndef POCKETKALDI_POOL_H_
-#define POCKETKALDI_POOL_H_
-
-#include <stdio.h>
-#include <vector>
-#include <unordered_set>
-#include <memory>
-#include <type_traits>
-#include "util.h"
-
-namespace pocketkaldi {
-
-// Pool is a class to optimize allocating large number of a class T.
-template<typename T, int BLOCK_SIZE = 4096>
-class Pool {
- public:
-  Pool() : current_block_(0), current_pos_(0) {
-    T *block = reinterpret_cast<T *>(::operator new(sizeof(T) * BLOCK_SIZE));
-    blocks_.push_back(block);
-  }
-
-  virtual ~Pool() {
-    Clear();
-    for (T *block : blocks_) {
-      ::operator delete(block);
-    }
-    current_block_ = 0;
-    current_pos_ = 0;
-  }
-
-  // Allocate a class T with constructor parameter args 
-  template<typename... Args>
-  T *Alloc(Args&&... args) {
-    T *memory;
-    if (free_.empty()) {
-      assert(current_pos_ <= BLOCK_SIZE);
-      if (current_pos_ == BLOCK_SIZE) {
-        if (current_block_ == blocks_.size() - 1) {
-          T *block = reinterpret_cast<T *>(
-              ::operator new(sizeof(T) * BLOCK_SIZE));
-          blocks_.push_back(block);
-        }
-        ++current_block_;
-        current_pos_ = 0;
-      }
-      memory = blocks_[current_block_] + current_pos_;
-      ++current_pos_;
-    } else {
-      memory = free_.back();
-      free_.pop_back();
-    }
-
-    new (memory) T(std::forward<Args>(args)...);
-    return memory;
-  }
-
-  // Allocate a class T with constructor parameter args 
-  void Dealloc(T *pointer) {
-    if (!std::is_trivially_destructible<T>::value) {
-      pointer->~T();
-    }
-    free_.push_back(pointer);
-  }
-
-  // Clear all allocated class T
-  void Clear() {
-    // Call the dtor
-
-    // Element in free_ is already destructed
-    std::unordered_set<T *> freed;
-    for (T *elem : free_) {
-      freed.insert(elem);
-    }
-
-    if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
-        T *block = blocks_[block_idx];
-        for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
-          if (freed.find(block + idx) == freed.end()) {
-            block[idx].~T();
-          }
-        }
-      }
-
-      // The last block in use
-      T *last_block = blocks_[current_block_];
-      for (int idx = 0; idx < current_pos_; ++idx) {
-        if (freed.find(last_block + idx) == freed.end()) {
-          last_block[idx].~T();
-        }
-      }
-    }
-
-    current_block_ = 0;
-    current_pos_ = 0;
-    free_.clear();
-  }
-
-  // Free and allocated nodes in this pool
-  int free_nodes() const {
-    return free_.size() +
-           (blocks_.size() - current_block_) * BLOCK_SIZE -
-           current_pos_;
-  }
-  int allocated_nodes() const {
-    return current_block_ * BLOCK_SIZE + current_pos_ - free_.size();
-  }
-
- protected:
-  std::vector<T *> blocks_;
-  std::vector<T *> free_;
-  int current_block_;
-  int current_pos_;
-};
-
-// Base class for any class T could be used in GCPool
-class Collectable {
- public:
-  enum {
-    kMarked,
-    kUnmarked,
-    kFreed,
-    kUsing
-  };
-  Collectable() : state_(kFreed) {}
-
-  // Indicates this node is freed or under using
-  void Free() { state_ = kFreed; }
-  void Use() { state_ = kUsing; }
-
-  // Mark and ummark in GC
-  void Mark() { 
-    assert(state_ != kFreed);
-    state_ = kMarked; 
-  }
-  void Unmark() { 
-    assert(state_ != kFreed);
-    state_ = kUnmarked;
-  }
-
-  bool is_marked() const { return state_ == kMarked; }
-  bool is_freed() const { return state_ == kFreed; }
-
-  // This function will be called when object is going to be collected
-  virtual void OnCollect() {}
-
- private:
-  int8_t state_;
-};
-
-// GC pool add gabbage collection into Pool. Using mark-and-sweep algorithm. 
-// And the class T linked with each othher with 'previous()' pointer.
-// So the type T should have at least 4 members
-//   T *previous()
-//   void mark()
-//   void unmark()
-//   bool marked()
-template<typename T, int BLOCK_SIZE = 4096>
-class GCPool : public Pool<T, BLOCK_SIZE> {
- public:
-  GCPool() {
-  }
-
-  template<typename... Args>
-  T *Alloc(Args&&... args) {
-    T *node = Pool<T, BLOCK_SIZE>::Alloc(std::forward<Args>(args)...);
-    node->Use();
-    return node;
-  }
-
-  void Dealloc(T *pointer) {
-    pointer->Free();
-    Pool<T, BLOCK_SIZE>::Dealloc(pointer);
-  }
-
-  // Start gabbage collection. Root set for GC is in root_nodes
-  void GC(const std::vector<T *> root_nodes) {
-    PK_DEBUG("=== GC Start ===");
-    int free_nodes = this->free_nodes();
-    int allocated_nodes = this->allocated_nodes();
-
-    // Unmark all elements
-    for (int block = 0; block <= this->current_block_; ++block) {
-      int max_pos = block == this->current_block_ ?
-          this->current_pos_ :
-          BLOCK_SIZE;
-      for (int pos = 0; pos < max_pos; ++pos) {
-        // Bypass the nodes already freed
-        if (this->blocks_[block][pos].is_freed()) continue;
-        this->blocks_[block][pos].Unmark();
-      }
-    }
-
-    // Push the root set into queue. Then traverse all nodes linked directly or
-    // indirectly by root set
-    std::vector<T *> queue(root_nodes.begin(), root_nodes.end());
-    while (!queue.empty()) {
-      T *node = queue.back();
-      queue.pop_back();
-
-      // Ignore nodes that already marked
-      if (node->is_marked()) continue;
-      
-      // Freed node shouldn't be pointed by existing nodes
-      assert(!node->is_freed());
-
-      node->Mark();
-      if (node->previous()) {
-        queue.push_back(node->previous());
-      }
-    }
-
-    // Dispose all unmarked nodes
-    std::vector<T *> nodes_to_free;
-    int free_count = 0;
-    for (int block = 0; block <= this->current_block_; ++block) {
-      int max_pos = block == this->current_block_ ?
-          this->current_pos_ :
-          BLOCK_SIZE;
-      for (int pos = 0; pos < max_pos; ++pos) {
-        // Bypass the nodes already freed
-        T *node = this->blocks_[block] + pos;
-        if (node->is_freed()) continue;
-        if (node->is_marked()) continue;
-
-        // Call OnCollect to release resources in nodes
-        node->OnCollect();
-
-        // Change state to free. We mark it free here beacuse it would be used
-        // in OnCollect function of other nodes
-        node->Free();
-
-        nodes_to_free.push_back(node);
-        ++free_count;
-      }
-    }
-
-    for (T *node : nodes_to_free) {
-      Dealloc(node);
-    }
-
-    PK_DEBUG(util::Format(
-        "Freed {} nodes, Allocated = {}",
-        free_count,
-        this->allocated_nodes()));
-    PK_DEBUG("=== GC Finsihed ===");
-  }
-};
-
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_POOL_H_
+// pool.h --- Created at 2016-05-17
+
+#ifndef POCKETKALDI_POOL_H_
+#define POCKETKALDI_POOL_H_
+
+#include <stdio.h>
+#include <vector>
+#include <unordered_set>
+#include <memory>
+#include <type_traits>
+#include "util.h"
+
+namespace pocketkaldi {
+
+// Pool is a class to optimize allocating large number of a class T.
+template<typename T, int BLOCK_SIZE = 4096>
+class Pool {
+ public:
+  Pool() : current_block_(0), current_pos_(0) {
+    T *block = reinterpret_cast<T *>(::operator new(sizeof(T) * BLOCK_SIZE));
+    blocks_.push_back(block);
+  }
+
+  virtual ~Pool() {
+    Clear();
+    for (T *block : blocks_) {
+      ::operator delete(block);
+    }
+    current_block_ = 0;
+    current_pos_ = 0;
+  }
+
+  // Allocate a class T with constructor parameter args 
+  template<typename... Args>
+  T *Alloc(Args&&... args) {
+    T *memory;
+    if (free_.empty()) {
+      assert(current_pos_ <= BLOCK_SIZE);
+      if (current_pos_ == BLOCK_SIZE) {
+        if (current_block_ == blocks_.size() - 1) {
+          T *block = reinterpret_cast<T *>(
+              ::operator new(sizeof(T) * BLOCK_SIZE));
+          blocks_.push_back(block);
+        }
+        ++current_block_;
+        current_pos_ = 0;
+      }
+      memory = blocks_[current_block_] + current_pos_;
+      ++current_pos_;
+    } else {
+      memory = free_.back();
+      free_.pop_back();
+    }
+
+    new (memory) T(std::forward<Args>(args)...);
+    return memory;
+  }
+
+  // Allocate a class T with constructor parameter args 
+  void Dealloc(T *pointer) {
+    if (!std::is_trivially_destructible<T>::value) {
+      pointer->~T();
+    }
+    free_.push_back(pointer);
+  }
+
+  // Clear all allocated class T
+  void Clear() {
+    // Call the dtor
+
+    // Element in free_ is already destructed
+    std::unordered_set<T *> freed;
+    for (T *elem : free_) {
+      freed.insert(elem);
+    }
+
+    if (!std::is_trivially_destructible<T>::value) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
+        T *block = blocks_[block_idx];
+        for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
+          if (freed.find(block + idx) == freed.end()) {
+            block[idx].~T();
+          }
+        }
+      }
+
+      // The last block in use
+      T *last_block = blocks_[current_block_];
+      for (int idx = 0; idx < current_pos_; ++idx) {
+        if (freed.find(last_block + idx) == freed.end()) {
+          last_block[idx].~T();
+        }
+      }
+    }
+
+    current_block_ = 0;
+    current_pos_ = 0;
+    free_.clear();
+  }
+
+  // Free and allocated nodes in this pool
+  int free_nodes() const {
+    return free_.size() +
+           (blocks_.size() - current_block_) * BLOCK_SIZE -
+           current_pos_;
+  }
+  int allocated_nodes() const {
+    return current_block_ * BLOCK_SIZE + current_pos_ - free_.size();
+  }
+
+ protected:
+  std::vector<T *> blocks_;
+  std::vector<T *> free_;
+  int current_block_;
+  int current_pos_;
+};
+
+// Base class for any class T could be used in GCPool
+class Collectable {
+ public:
+  enum {
+    kMarked,
+    kUnmarked,
+    kFreed,
+    kUsing
+  };
+  Collectable() : state_(kFreed) {}
+
+  // Indicates this node is freed or under using
+  void Free() { state_ = kFreed; }
+  void Use() { state_ = kUsing; }
+
+  // Mark and ummark in GC
+  void Mark() { 
+    assert(state_ != kFreed);
+    state_ = kMarked; 
+  }
+  void Unmark() { 
+    assert(state_ != kFreed);
+    state_ = kUnmarked;
+  }
+
+  bool is_marked() const { return state_ == kMarked; }
+  bool is_freed() const { return state_ == kFreed; }
+
+  // This function will be called when object is going to be collected
+  virtual void OnCollect() {}
+
+ private:
+  int8_t state_;
+};
+
+// GC pool add gabbage collection into Pool. Using mark-and-sweep algorithm. 
+// And the class T linked with each othher with 'previous()' pointer.
+// So the type T should have at least 4 members
+//   T *previous()
+//   void mark()
+//   void unmark()
+//   bool marked()
+template<typename T, int BLOCK_SIZE = 4096>
+class GCPool : public Pool<T, BLOCK_SIZE> {
+ public:
+  GCPool() {
+  }
+
+  template<typename... Args>
+  T *Alloc(Args&&... args) {
+    T *node = Pool<T, BLOCK_SIZE>::Alloc(std::forward<Args>(args)...);
+    node->Use();
+    return node;
+  }
+
+  void Dealloc(T *pointer) {
+    pointer->Free();
+    Pool<T, BLOCK_SIZE>::Dealloc(pointer);
+  }
+
+  // Start gabbage collection. Root set for GC is in root_nodes
+  void GC(const std::vector<T *> root_nodes) {
+    PK_DEBUG("=== GC Start ===");
+    int free_nodes = this->free_nodes();
+    int allocated_nodes = this->allocated_nodes();
+
+    // Unmark all elements
+    for (int block = 0; block <= this->current_block_; ++block) {
+      int max_pos = block == this->current_block_ ?
+          this->current_pos_ :
+          BLOCK_SIZE;
+      for (int pos = 0; pos < max_pos; ++pos) {
+        // Bypass the nodes already freed
+        if (this->blocks_[block][pos].is_freed()) continue;
+        this->blocks_[block][pos].Unmark();
+      }
+    }
+
+    // Push the root set into queue. Then traverse all nodes linked directly or
+    // indirectly by root set
+    std::vector<T *> queue(root_nodes.begin(), root_nodes.end());
+    while (!queue.empty()) {
+      T *node = queue.back();
+      queue.pop_back();
+
+      // Ignore nodes that already marked
+      if (node->is_marked()) continue;
+      
+      // Freed node shouldn't be pointed by existing nodes
+      assert(!node->is_freed());
+
+      node->Mark();
+      if (node->previous()) {
+        queue.push_back(node->previous());
+      }
+    }
+
+    // Dispose all unmarked nodes
+    std::vector<T *> nodes_to_free;
+    int free_count = 0;
+    for (int block = 0; block <= this->current_block_; ++block) {
+      int max_pos = block == this->current_block_ ?
+          this->current_pos_ :
+          BLOCK_SIZE;
+      for (int pos = 0; pos < max_pos; ++pos) {
+        // Bypass the nodes already freed
+        T *node = this->blocks_[block] + pos;
+        if (node->is_freed()) continue;
+        if (node->is_marked()) continue;
+
+        // Call OnCollect to release resources in nodes
+        node->OnCollect();
+
+        // Change state to free. We mark it free here beacuse it would be used
+        // in OnCollect function of other nodes
+        node->Free();
+
+        nodes_to_free.push_back(node);
+        ++free_count;
+      }
+    }
+
+    for (T *node : nodes_to_free) {
+      Dealloc(node);
+    }
+
+    PK_DEBUG(util::Format(
+        "Freed {} nodes, Allocated = {}",
+        free_count,
+        this->allocated_nodes()));
+    PK_DEBUG("=== GC Finsihed ===");
+  }
+};
+
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_POOL_H_
diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 65633cb..fdc271a 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -1,73 +1,73 @@
-// Create at 2017-03-27
-
-#include "symbol_table.h"
-
-#include <assert.h>
-#include <limits.h>
-#include <stdlib.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-char kBosSymbol[] = "<s>";
-char kEosSymbol[] = "</s>";
-
-SymbolTable::SymbolTable(): bos_id_(0), eos_id_(0) {}
-
-Status SymbolTable::Read(const std::string &filename) {
-  util::ReadableFile fd;
-  PK_CHECK_STATUS(fd.Open(filename));
-
-  Status status = Status::OK();
-  std::string line;
-  words_.reserve(65536);
-  while (fd.ReadLine(&line, &status) && status.ok()) {
-    std::vector<std::string> fields = util::Split(line, " ");
-    if (fields.size() != 2) {
-      return Status::Corruption(util::Format(
-          "2 column expected but {} found: {}",
-          fields.size(),
-          line));
-    }
-
-    std::string word = fields[0];
-    long word_id = 0;
-    PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    if (word_id < 0 || word_id > INT_MAX) {
-      return Status::Corruption(util::Format(
-          "unexpected symbol id: {}",
-          line));
-    }
-    
-    word_ids_[word] = word_id;
-    if (word_id >= words_.size()) words_.resize(word_id + 1);
-    words_[word_id] = word;
-  }
-  PK_CHECK_STATUS(status);
-
-  // Find BOS and EOS ids
-  if (word_ids_.find(kBosSymbol) == word_ids_.end() ||
-      word_ids_.find(kEosSymbol) == word_ids_.end()) {
-    return Status::Corruption("symbol_table: unable to find BOS/EOS symbol");
-  }
-  bos_id_ = word_ids_[kBosSymbol];
-  eos_id_ = word_ids_[kEosSymbol];
-
-  return Status::OK();
-}
-
-const char *SymbolTable::Get(int symbol_id) const {
-  assert(symbol_id < words_.size() && "symbol_id out of boundary");
-  return words_[symbol_id].c_str();
-}
-
-int SymbolTable::GetId(const std::string &word) const {
-  std::unordered_map<std::string, int>::const_iterator it = word_ids_.find(word);
-  if (it == word_ids_.end()) {
-    return kNotExist;
-  } else {
-    return it->second;
-  }
-}
-
-}  // namespace pocketkaldi
+// Create at 2017-03-27
+
+#include "symbol_table.h"
+
+#include <assert.h>
+#include <limits.h>
+#include <stdlib.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+char kBosSymbol[] = "<s>";
+char kEosSymbol[] = "</s>";
+
+SymbolTable::SymbolTable(): bos_id_(0), eos_id_(0) {}
+
+Status SymbolTable::Read(const std::string &filename) {
+  util::ReadableFile fd;
+  PK_CHECK_STATUS(fd.Open(filename));
+
+  Status status = Status::OK();
+  std::string line;
+  words_.reserve(65536);
+  while (fd.ReadLine(&line, &status) && status.ok()) {
+    std::vector<std::string> fields = util::Split(line, " ");
+    if (fields.size() != 2) {
+      return Status::Corruption(util::Format(
+          "2 column expected but {} found: {}",
+          fields.size(),
+          line));
+    }
+
+    std::string word = fields[0];
+    long word_id = 0;
+    PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
+    if (word_id < 0 || word_id > INT_MAX) {
+      return Status::Corruption(util::Format(
+          "unexpected symbol id: {}",
+          line));
+    }
+    
+    word_ids_[word] = word_id;
+    if (word_id >= words_.size()) words_.resize(word_id + 1);
+    words_[word_id] = word;
+  }
+  PK_CHECK_STATUS(status);
+
+  // Find BOS and EOS ids
+  if (word_ids_.find(kBosSymbol) == word_ids_.end() ||
+      word_ids_.find(kEosSymbol) == word_ids_.end()) {
+    return Status::Corruption("symbol_table: unable to find BOS/EOS symbol");
+  }
+  bos_id_ = word_ids_[kBosSymbol];
+  eos_id_ = word_ids_[kEosSymbol];
+
+  return Status::OK();
+}
+
+const char *SymbolTable::Get(int symbol_id) const {
+  assert(symbol_id < words_.size() && "symbol_id out of boundary");
+  return words_[symbol_id].c_str();
+}
+
+int SymbolTable::GetId(const std::string &word) const {
+  std::unordered_map<std::string, int>::const_iterator it = word_ids_.find(word);
+  if (it == word_ids_.end()) {
+    return kNotExist;
+  } else {
+    return it->second;
+  }
+}
+
+}  // namespace pocketkaldi
diff --git a/src/util.cc b/src/util.cc
index 1e77e64..6e2fbfc 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -1,166 +1,166 @@
-// Created at 2016-11-24
-
-#include "util.h"
-
-#include <assert.h>
-#include <ctype.h>
-#include <stdarg.h>
-#include <string.h>
-#include <stdio.h>
-#include <stdint.h>
-#include <stdlib.h>
-#include <array>
-#include <algorithm>
-
-namespace pocketkaldi {
-namespace util {
-
-std::string Trim(const std::string &str) {
-  std::string::const_iterator begin = str.cbegin();
-  std::string::const_iterator end = str.cend() - 1;
-
-  while (begin < str.cend() && isspace(*begin)) ++begin;
-  while (end > begin && isspace(*end)) --end;
-  return std::string(begin, end + 1);
-}
-
-std::vector<std::string> Split(
-    const std::string &str,
-    const std::string &delim) {
-  std::vector<std::string> fields;
-  int start = 0;
-  int pos = 0;
-  while ((pos = str.find(delim, start)) != std::string::npos) {
-    fields.emplace_back(str.cbegin() + start, str.cbegin() + pos);
-    start = pos + delim.size();
-  }
-  if (str.cbegin() + start < str.cend()) {
-    fields.emplace_back(str.cbegin() + start, str.cend());
-  }
-
-  return fields;
-}
-
-std::string Tolower(const std::string &str) {
-  std::string lower(str.begin(), str.end());
-  std::transform(lower.begin(), lower.end(), lower.begin(), tolower);
-  return lower;
-}
-
-
-Status StringToLong(const std::string &str, long *val) {
-  std::string trim_str = Trim(str);
-  char *end = nullptr;
-  *val = strtol(trim_str.c_str(), &end, 0);
-  if (trim_str.empty() || *end != '\0') {
-    return Status::Corruption(Format("unexpected number string: {}", trim_str));
-  }
-  
-  return Status::OK();
-}
-
-
-ReadableFile::ReadableFile():
-    fd_(nullptr), file_size_(0), owned_(true), eof_reported_(false) {
-}
-
-ReadableFile::ReadableFile(FILE *fd):
-    fd_(fd), file_size_(0), owned_(false), eof_reported_(false) {
-}
-
-ReadableFile::~ReadableFile() {
-  if (fd_ != nullptr && owned_) fclose(fd_);
-  fd_ = NULL;
-}
-
-Status ReadableFile::Open(const std::string &filename) {
-  filename_ = filename;
-  eof_reported_ = false;
-  fd_ = fopen(filename.c_str(), "rb");
-  if (fd_ == NULL) {
-    return Status::IOError(util::Format("Unable to open {}", filename));
-  }
-
-  // Get file size
-  fseek(fd_, 0, SEEK_END);
-  file_size_ = ftell(fd_);
-  fseek(fd_, 0, SEEK_SET);
-
-  return Status::OK();
-}
-
-bool ReadableFile::ReadLine(std::string *line, Status *status) {
-  // Failed if EOF was already reported
-  if (eof_reported_) {
-    *status = Status::IOError(
-        util::Format("EOF already reached: {}", filename_));
-    return false;
-  }
-
-  // Readline. A line longer than chunk is read piece by piece
-  std::array<char, 4096> chunk;
-  std::string text;
-  char *s = NULL;
-  while ((s = fgets(chunk.data(), chunk.size(), fd_)) != NULL) {
-    text += s;
-    if (text.empty() == false && text.back() == '\n') break;
-  }
-  if (s == NULL && ferror(fd_)) {
-    *status = Status::IOError(filename_);
-    return false;
-  }
-  if (text.empty()) {
-    // First time that reached EOF
-    eof_reported_ = true;
-    return false;
-  }
-
-  // Trim the tailing '\r' or '\n'
-  *line = text;
-  while (line->empty() == false &&
-         (line->back() == '\r' || line->back() == '\n')) {
-    line->pop_back();
-  }
-  return true;
-}
-
-Status ReadableFile::Read(void *ptr, int size) {
-  // Nothing to read. fread() returns 0 in this case
-  if (size == 0) return Status::OK();
-
-  if (1 != fread(ptr, size, 1, fd_)) {
-    return Status::IOError(util::Format("failed to read: {}", filename_));
-  } else {
-    return Status::OK();
-  }
-}
-
-Status ReadableFile::ReadAndVerifyString(const std::string &expected) {
-  std::vector<char> name_buffer(expected.size() + 1);
-
-  Status status = Read(name_buffer.data(), expected.size());
-  if (!status.ok()) return status;
-  name_buffer.back() = '\0';
-  if (expected != name_buffer.data()) {
-    return Status::Corruption(util::Format(
-       "ReadAndVerifyString: '{}' expected but '{}' found in {}",
-       expected,
-       name_buffer.data(),
-       filename_));
-  }
-
-  return Status::OK();
-}
-
-bool ReadableFile::Eof() const {
-  return feof(fd_) != 0;
-}
-
-void ReadableFile::Close() {
-  assert(owned_ && "unable to call Close() in borrowed mode");
-  if (fd_ != nullptr) fclose(fd_);
-  fd_ = nullptr;
-}
-
-}  // namespace util
-}  // namespace pocketkaldi
+// Created at 2016-11-24
+
+#include "util.h"
+
+#include <assert.h>
+#include <ctype.h>
+#include <stdarg.h>
+#include <string.h>
+#include <stdio.h>
+#include <stdint.h>
+#include <stdlib.h>
+#include <array>
+#include <algorithm>
+
+namespace pocketkaldi {
+namespace util {
+
+std::string Trim(const std::string &str) {
+  std::string::const_iterator begin = str.cbegin();
+  std::string::const_iterator end = str.cend() - 1;
+
+  while (begin < str.cend() && isspace(*begin)) ++begin;
+  while (end > begin && isspace(*end)) --end;
+  return std::string(begin, end + 1);
+}
+
+std::vector<std::string> Split(
+    const std::string &str,
+    const std::string &delim) {
+  std::vector<std::string> fields;
+  int start = 0;
+  int pos = 0;
+  while ((pos = str.find(delim, start)) != std::string::npos) {
+    fields.emplace_back(str.cbegin() + start, str.cbegin() + pos);
+    start = pos + delim.size();
+  }
+  if (str.cbegin() + start < str.cend()) {
+    fields.emplace_back(str.cbegin() + start, str.cend());
+  }
+
+  return fields;
+}
+
+std::string Tolower(const std::string &str) {
+  std::string lower(str.begin(), str.end());
+  std::transform(lower.begin(), lower.end(), lower.begin(), tolower);
+  return lower;
+}
+
+
+Status StringToLong(const std::string &str, long *val) {
+  std::string trim_str = Trim(str);
+  char *end = nullptr;
+  *val = strtol(trim_str.c_str(), &end, 0);
+  if (trim_str.empty() || *end != '\0') {
+    return Status::Corruption(Format("unexpected number string: {}", trim_str));
+  }
+  
+  return Status::OK();
+}
+
+
+ReadableFile::ReadableFile():
+    fd_(nullptr), file_size_(0), owned_(true), eof_reported_(false) {
+}
+
+ReadableFile::ReadableFile(FILE *fd):
+    fd_(fd), file_size_(0), owned_(false), eof_reported_(false) {
+}
+
+ReadableFile::~ReadableFile() {
+  if (fd_ != nullptr && owned_) fclose(fd_);
+  fd_ = NULL;
+}
+
+Status ReadableFile::Open(const std::string &filename) {
+  filename_ = filename;
+  eof_reported_ = false;
+  fd_ = fopen(filename.c_str(), "rb");
+  if (fd_ == NULL) {
+    return Status::IOError(util::Format("Unable to open {}", filename));
+  }
+
+  // Get file size
+  fseek(fd_, 0, SEEK_END);
+  file_size_ = ftell(fd_);
+  fseek(fd_, 0, SEEK_SET);
+
+  return Status::OK();
+}
+
+bool ReadableFile::ReadLine(std::string *line, Status *status) {
+  // Failed if EOF was already reported
+  if (eof_reported_) {
+    *status = Status::IOError(
+        util::Format("EOF already reached: {}", filename_));
+    return false;
+  }
+
+  // Readline. A line longer than chunk is read piece by piece
+  std::array<char, 4096> chunk;
+  std::string text;
+  char *s = NULL;
+  while ((s = fgets(chunk.data(), chunk.size(), fd_)) != NULL) {
+    text += s;
+    if (text.empty() == false && text.back() == '\n') break;
+  }
+  if (s == NULL && ferror(fd_)) {
+    *status = Status::IOError(filename_);
+    return false;
+  }
+  if (text.empty()) {
+    // First time that reached EOF
+    eof_reported_ = true;
+    return false;
+  }
+
+  // Trim the tailing '\r' or '\n'
+  *line = text;
+  while (line->empty() == false &&
+         (line->back() == '\r' || line->back() == '\n')) {
+    line->pop_back();
+  }
+  return true;
+}
+
+Status ReadableFile::Read(void *ptr, int size) {
+  // Nothing to read. fread() returns 0 in this case
+  if (size == 0) return Status::OK();
+
+  if (1 != fread(ptr, size, 1, fd_)) {
+    return Status::IOError(util::Format("failed to read: {}", filename_));
+  } else {
+    return Status::OK();
+  }
+}
+
+Status ReadableFile::ReadAndVerifyString(const std::string &expected) {
+  std::vector<char> name_buffer(expected.size() + 1);
+
+  Status status = Read(name_buffer.data(), expected.size());
+  if (!status.ok()) return status;
+  name_buffer.back() = '\0';
+  if (expected != name_buffer.data()) {
+    return Status::Corruption(util::Format(
+       "ReadAndVerifyString: '{}' expected but '{}' found in {}",
+       expected,
+       name_buffer.data(),
+       filename_));
+  }
+
+  return Status::OK();
+}
+
+bool ReadableFile::Eof() const {
+  return feof(fd_) != 0;
+}
+
+void ReadableFile::Close() {
+  assert(owned_ && "unable to call Close() in borrowed mode");
+  if (fd_ != nullptr) fclose(fd_);
+  fd_ = nullptr;
+}
+
+}  // namespace util
+}  // namespace pocketkaldi
diff --git a/src/util.h b/src/util.h
index b0e98ec..503c6c2 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,183 +1,183 @@
-// Created at 2016-11-24
-
-#ifndef POCKETKALDI_UTIL_H_
-#define POCKETKALDI_UTIL_H_
-
-#include <assert.h>
-#include <stdbool.h>
-#include <stdlib.h>
-#include <stdio.h>
-#include <string>
-#include <sstream>
-#include <iostream>
-#include <utility>
-#include <vector>
-#include "ce_stt.h"
-#include "status.h"
-
-// Error types for status
-#define PK_STATUS_STSUCCESS 0
-#define PK_STATUS_STIOERROR 1
-#define PK_STATUS_STCORRUPTED 2
-
-#ifndef DISALLOW_COPY_AND_ASSIGN
-#define DISALLOW_COPY_AND_ASSIGN(TypeName) \
-  TypeName(const TypeName&);   \
-  void operator=(const TypeName&) 
-#endif
-
-
-#define PK_UNUSED(x) (void)(x)
-#define PK_MIN(a, b) ((a) < (b) ? (a) : (b))
-
-#define PK_PATHMAX 1024
-
-#define PK_CHECK_STATUS(st_exp) {\
-    Status st = (st_exp);\
-    if (!st.ok()) return st;}
-
-#define PK_INFO(msg) std::cerr << __FILE__ << ": " << (msg) << std::endl;
-#define PK_WARN(msg) std::cerr << "WARN: " << __FILE__ << ": " \
-                               << (msg) << std::endl;
-// #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
-#define PK_DEBUG(msg)
-
-// The same as strlcpy in FreeBSD
-size_t pasco_strlcpy(char *dst, const char *src, size_t siz);
-
-// 
-namespace pocketkaldi {
-namespace util {
-
-template<typename T,
-         typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
-inline std::string ToString(const T &val) {
-  return std::to_string(val);
-}
-template<typename T>
-inline std::string ToString(const T * const val) {
-  return std::to_string(reinterpret_cast<uint64_t>(val));
-}
-inline std::string ToString(const std::string &val) {
-  return val;
-}
-inline std::string ToString(const char *const &val) {
-  return std::string(val);
-}
-
-namespace {
-
-inline std::string FormatImpl(const std::string &formatted) {
-  return formatted;
-}
-template<typename T, typename... Args>
-inline std::string FormatImpl(
-    const std::string &formatted,
-    T &&item,
-    Args &&...args) {
-  size_t pos = formatted.find("{}");
-  std::string repl = ToString(item);
-  std::string next_formatted = formatted;
-  if (pos != std::string::npos) {
-    next_formatted.replace(pos, 2, repl);
-  }
-  return FormatImpl(next_formatted, std::forward<Args>(args)...);
-}
-
-}  // namespace
-
-// Format string function, just like Python, it uses '{}' for replacement. For
-// example:
-//   util::Format("Hello, {}, {}!", "World", "2233");
-template<typename... Args>
-inline std::string Format(const std::string &fmt, Args &&...args) {
-  return FormatImpl(fmt, std::forward<Args>(args)...);
-}
-
-// Trim string 
-std::string Trim(const std::string &str);
-
-// Split string by delim and returns as a vector of strings
-std::vector<std::string> Split(
-    const std::string &str,
-    const std::string &delim);
-
-// String tolower
-std::string Tolower(const std::string &str);
-
-// Converts a string to long.
-Status StringToLong(const std::string &str, long *val);
-
-// A wrapper of FILE in stdio.h
-class ReadableFile {
- public:
-  ReadableFile();
-  ~ReadableFile();
-
-  // Initialize ReadableFile with a borrowed FILE pointer
-  ReadableFile(FILE *fd);
-
-  // Return true if end-of-file reached
-  bool Eof() const;
-
-  // Open a file for read. If success, status->ok() will be true. Otherwise,
-  // status->ok() == false
-  Status Open(const std::string &filename);
-
-  // Read n bytes (size) from file and put to *ptr
-  Status Read(void *ptr, int size);
-
-  // Read a string with size `expected.size()` from file. Then compare it with
-  // `expected`. If different, return a failed state. Otherwise, return success
-  Status ReadAndVerifyString(const std::string &expected);
-
-  // Read an type T from file
-  template<typename T>
-  Status ReadValue(T *data) {
-    return Read(data, sizeof(T));
-  }
-
-  // Get filename
-  const std::string &filename() const {
-    return filename_;
-  }
-
-  // Return filesize
-  int64_t file_size() const {
-    assert(owned_ && "unable to call file_size() in borrowed mode");
-    return file_size_;
-  }
-
-  // Close opened file
-  void Close();
-
-  // Read a line from file. 
-  //     On success: status->ok() == true and return true.
-  //     On EOF reached first time: status->ok() == true and return false.
-  //     Other: status->ok() == false and return false.
-  bool ReadLine(std::string *line, Status *status);
-
- private:
-  std::string filename_;
-  FILE *fd_;
-  int64_t file_size_;
-  bool owned_;
-
-  // true if ReadLine() has already reported the end of file
-  bool eof_reported_;
-};
-
-// To check if a class have 'previous' field
-template <typename T>
-struct has_previous {
-  template<typename C> static int8_t check(decltype(&C::previous)) ;
-  template<typename C> static int16_t check(...);    
-  enum {
-    value = (sizeof(check<T>(0)) == sizeof(int8_t))
-  };
-};
-
-}  // namespace util
-}  // namespace pocketkaldi
-
-#endif  // POCKETKALDI_UTIL_H_
+// Created at 2016-11-24
+
+#ifndef POCKETKALDI_UTIL_H_
+#define POCKETKALDI_UTIL_H_
+
+#include <assert.h>
+#include <stdbool.h>
+#include <stdlib.h>
+#include <stdio.h>
+#include <string>
+#include <sstream>
+#include <iostream>
+#include <utility>
+#include <vector>
+#include "ce_stt.h"
+#include "status.h"
+
+// Error types for status
+#define PK_STATUS_STSUCCESS 0
+#define PK_STATUS_STIOERROR 1
+#define PK_STATUS_STCORRUPTED 2
+
+#ifndef DISALLOW_COPY_AND_ASSIGN
+#define DISALLOW_COPY_AND_ASSIGN(TypeName) \
+  TypeName(const TypeName&);   \
+  void operator=(const TypeName&) 
+#endif
+
+
+#define PK_UNUSED(x) (void)(x)
+#define PK_MIN(a, b) ((a) < (b) ? (a) : (b))
+
+#define PK_PATHMAX 1024
+
+#define PK_CHECK_STATUS(st_exp) {\
+    Status st = (st_exp);\
+    if (!st.ok()) return st;}
+
+#define PK_INFO(msg) std::cerr << __FILE__ << ": " << (msg) << std::endl;
+#define PK_WARN(msg) std::cerr << "WARN: " << __FILE__ << ": " \
+                               << (msg) << std::endl;
+// #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
+#define PK_DEBUG(msg)
+
+// The same as strlcpy in FreeBSD
+size_t pasco_strlcpy(char *dst, const char *src, size_t siz);
+
+// 
+namespace pocketkaldi {
+namespace util {
+
+template<typename T,
+         typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
+inline std::string ToString(const T &val) {
+  return std::to_string(val);
+}
+template<typename T>
+inline std::string ToString(const T * const val) {
+  return std::to_string(reinterpret_cast<uint64_t>(val));
+}
+inline std::string ToString(const std::string &val) {
+  return val;
+}
+inline std::string ToString(const char *const &val) {
+  return std::string(val);
+}
+
+namespace {
+
+inline std::string FormatImpl(const std::string &formatted) {
+  return formatted;
+}
+template<typename T, typename... Args>
+inline std::string FormatImpl(
+    const std::string &formatted,
+    T &&item,
+    Args &&...args) {
+  size_t pos = formatted.find("{}");
+  std::string repl = ToString(item);
+  std::string next_formatted = formatted;
+  if (pos != std::string::npos) {
+    next_formatted.replace(pos, 2, repl);
+  }
+  return FormatImpl(next_formatted, std::forward<Args>(args)...);
+}
+
+}  // namespace
+
+// Format string function, just like Python, it uses '{}' for replacement. For
+// example:
+//   util::Format("Hello, {}, {}!", "World", "2233");
+template<typename... Args>
+inline std::string Format(const std::string &fmt, Args &&...args) {
+  return FormatImpl(fmt, std::forward<Args>(args)...);
+}
+
+// Trim string 
+std::string Trim(const std::string &str);
+
+// Split string by delim and returns as a vector of strings
+std::vector<std::string> Split(
+    const std::string &str,
+    const std::string &delim);
+
+// String tolower
+std::string Tolower(const std::string &str);
+
+// Converts a string to long.
+Status StringToLong(const std::string &str, long *val);
+
+// A wrapper of FILE in stdio.h
+class ReadableFile {
+ public:
+  ReadableFile();
+  ~ReadableFile();
+
+  // Initialize ReadableFile with a borrowed FILE pointer
+  ReadableFile(FILE *fd);
+
+  // Return true if end-of-file reached
+  bool Eof() const;
+
+  // Open a file for read. If success, status->ok() will be true. Otherwise,
+  // status->ok() == false
+  Status Open(const std::string &filename);
+
+  // Read n bytes (size) from file and put to *ptr
+  Status Read(void *ptr, int size);
+
+  // Read a string with size `expected.size()` from file. Then compare it with
+  // `expected`. If different, return a failed state. Otherwise, return success
+  Status ReadAndVerifyString(const std::string &expected);
+
+  // Read an type T from file
+  template<typename T>
+  Status ReadValue(T *data) {
+    return Read(data, sizeof(T));
+  }
+
+  // Get filename
+  const std::string &filename() const {
+    return filename_;
+  }
+
+  // Return filesize
+  int64_t file_size() const {
+    assert(owned_ && "unable to call file_size() in borrowed mode");
+    return file_size_;
+  }
+
+  // Close opened file
+  void Close();
+
+  // Read a line from file. 
+  //     On success: status->ok() == true and return true.
+  //     On EOF reached first time: status->ok() == true and return false.
+  //     Other: status->ok() == false and return false.
+  bool ReadLine(std::string *line, Status *status);
+
+ private:
+  std::string filename_;
+  FILE *fd_;
+  int64_t file_size_;
+  bool owned_;
+
+  // true if ReadLine() has already reported the end of file
+  bool eof_reported_;
+};
+
+// To check if a class have 'previous' field
+template <typename T>
+struct has_previous {
+  template<typename C> static int8_t check(decltype(&C::previous)) ;
+  template<typename C> static int16_t check(...);    
+  enum {
+    value = (sizeof(check<T>(0)) == sizeof(int8_t))
+  };
+};
+
+}  // namespace util
+}  // namespace pocketkaldi
+
+#endif  // POCKETKALDI_UTIL_H_
diff --git a/src/vector.cc b/src/vector.cc
index 87ff043..52578cf 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -1,326 +1,326 @@
-
-#include "vector.h"
-
-#include <math.h>
-#include <stdlib.h>
-#include <string.h>
-#include "util.h"
-
-namespace pocketkaldi {
-
-template<typename Real>
-Vector<Real>::Vector(Vector<Real> &&v) {
-  this->dim_ = v.dim_;
-  this->data_ = v.data_;
-
-  v.dim_ = 0;
-  v.data_ = nullptr;
-}
-
-template<typename Real>
-Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
-  if (this == &v) return *this;
-
-  Destroy();
-  this->dim_ = v.dim_;
-  this->data_ = v.data_;
-
-  v.dim_ = 0;
-  v.data_ = nullptr;
-
-  return *this;
-}
-
-template<typename Real>
-inline void Vector<Real>::Init(int dim) {
-  assert(dim >= 0);
-  if (dim == 0) {
-    this->dim_ = 0;
-    this->data_ = NULL;
-    return;
-  }
-  int size;
-  void *data;
-
-  size = dim * sizeof(Real);
-
-  if (posix_memalign(&data, 32, size) == 0) {
-    this->data_ = static_cast<Real*>(data);
-    this->dim_ = dim;
-  } else {
-    throw std::bad_alloc();
-  }
-}
-
-/// Deallocates memory and sets object to empty vector.
-template<typename Real>
-void Vector<Real>::Destroy() {
-  /// we need to free the data block if it was defined
-  if (this->data_ != NULL) free(this->data_);
-  this->data_ = NULL;
-  this->dim_ = 0;
-}
-
-template<typename Real>
-void VectorBase<Real>::Set(Real f) {
-  // Why not use memset here?
-  for (int i = 0; i < dim_; i++) { data_[i] = f; }
-}
-
-template<typename Real>
-void VectorBase<Real>::SetZero() {
-  memset(data_, 0, dim_ * sizeof(Real));
-}
-
-/// Copy data from another vector
-template<typename Real>
-void VectorBase<Real>::CopyFromVec(const VectorBase<Real> &v) {
-  assert(Dim() == v.Dim());
-  if (data_ != v.data_) {
-    memcpy(this->data_, v.data_, dim_ * sizeof(Real));
-  }
-}
-
-template<typename Real>
-Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
-  int r_dim = r.Dim();
-  assert(r_dim == Dim());
-  const Real *l_data = Data();
-  const Real *r_data = r.Data();
-  Real sum = 0.0;
-  for (int i = 0; i < r_dim; i++) {
-    sum += l_data[i] * r_data[i];
-  }
-  return sum;
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplySoftMax() {
-  Real sum = 0;
-
-  // Subtract the maximum, otherwise exp overflows for large elements
-  Real max = Dim() > 0 ? (*this)(0) : 0;
-  for (int i = 1; i < Dim(); ++i) {
-    if ((*this)(i) > max) max = (*this)(i);
-  }
-
-  for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i) - max);
-    (*this)(i) = exp_d;
-    sum += exp_d;
-  }
-
-  for (int i = 0; i < Dim(); ++i) {
-    (*this)(i) /= sum;
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyLogSoftMax() {
-  Real sum = 0;
-
-  // Subtract the maximum, otherwise exp overflows for large elements
-  Real max = Dim() > 0 ? (*this)(0) : 0;
-  for (int i = 1; i < Dim(); ++i) {
-    if ((*this)(i) > max) max = (*this)(i);
-  }
-
-  for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i) - max);
-    sum += exp_d;
-  }
-  Real logsum = max + log(sum);
-  
-  for (int i = 0; i < Dim(); ++i) {
-    (*this)(i) -= logsum;
-  }
-}
-
-template<typename Real>
-void Vector<Real>::Swap(Vector<Real> *other) {
-  std::swap(this->data_, other->data_);
-  std::swap(this->dim_, other->dim_);
-}
-
-template<typename Real>
-void Vector<Real>::Resize(const int dim, int resize_type) {
-  // the next block uses recursion to handle what we have to do if
-  // resize_type == kCopyData.
-  if (resize_type == kCopyData) {
-    // nothing to copy.
-    if (this->data_ == NULL || dim == 0) resize_type = kSetZero;  
-    else if (this->dim_ == dim) { return; } // nothing to do.
-    else {
-      // set tmp to a vector of the desired size.
-      Vector<Real> tmp(dim, kUndefined);
-      if (dim > this->dim_) {
-        memcpy(tmp.data_, this->data_, sizeof(Real)*this->dim_);
-        memset(tmp.data_ + this->dim_, 0, sizeof(Real) * (dim-this->dim_));
-      } else {
-        memcpy(tmp.data_, this->data_, sizeof(Real)*dim);
-      }
-      tmp.Swap(this);
-      // and now let tmp go out of scope, deleting what was in *this.
-      return;
-    }
-  }
-  // At this point, resize_type == kSetZero or kUndefined.
-
-  if (this->data_ != NULL) {
-    if (this->dim_ == dim) {
-      if (resize_type == kSetZero) this->SetZero();
-      return;
-    } else {
-      Destroy();
-    }
-  }
-  Init(dim);
-  if (resize_type == kSetZero) this->SetZero();
-}
-
-template<typename Real>
-int VectorBase<Real>::ApplyFloor(Real floor_val) {
-  int num_floored = 0;
-  for (int i = 0; i < dim_; i++) {
-    if (data_[i] < floor_val) {
-      data_[i] = floor_val;
-      num_floored++;
-    }
-  }
-  return num_floored;
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyLog() {
-  for (int i = 0; i < dim_; i++) {
-    assert(data_[i] >= 0.0);
-    data_[i] = log(data_[i]);
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::ApplyPow(Real power) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] = pow(data_[i], power);
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::Scale(Real alpha) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] *= alpha;
-  }
-}
-
-
-template<typename Real>
-void VectorBase<Real>::Add(Real val) {
-  for (int i = 0; i < dim_; i++) {
-    data_[i] += val;
-  }
-}
-
-template<typename Real>
-void VectorBase<Real>::PrintDebug() {
-  printf("vector: dim = %d, data = [", dim_);
-  for (int i = 0; i < dim_; i++) {
-    printf("%s, ", std::to_string(data_[i]).c_str());
-  }
-  puts("]");
-}
-
-template<typename Real>
-void VectorBase<Real>::MulElements(const VectorBase<Real> &v) {
-  assert(v.Dim() == Dim() && "MulElements: vector size mismatch");
-  for (int i = 0; i < dim_; i++) {
-    data_[i] *= v(i);
-  }
-}
-
-template<typename Real>
-template<typename OtherReal>
-void VectorBase<Real>::CopyFromVec(const VectorBase<OtherReal> &other) {
-  assert(dim_ == other.Dim());
-  Real * __restrict__  ptr = data_;
-  const OtherReal * __restrict__ other_ptr = other.Data();
-  for (int i = 0; i < dim_; i++) {
-    ptr[i] = other_ptr[i];
-  }
-}
-
-template void VectorBase<float>::CopyFromVec(const VectorBase<double> &other);
-template void VectorBase<double>::CopyFromVec(const VectorBase<float> &other);
-
-template<typename Real>
-template<typename OtherReal>
-void VectorBase<Real>::AddVec(
-    const Real alpha,
-    const VectorBase<OtherReal> &v) {
-  assert(dim_ == v.dim_);
-  // remove __restrict__ if it causes compilation problems.
-  Real *__restrict__ data = data_;
-  OtherReal *__restrict__ other_data = v.data_;
-  int dim = dim_;
-  if (alpha != 1.0) {
-    for (int i = 0; i < dim; i++) {
-      data[i] += alpha * other_data[i];
-    }
-  } else {
-    for (int i = 0; i < dim; i++) {
-      data[i] += other_data[i];
-    }
-  }
-}
-
-template
-void VectorBase<float>::AddVec(const float alpha, const VectorBase<double> &v);
-template
-void VectorBase<float>::AddVec(const float alpha, const VectorBase<float> &v);
-template
-void VectorBase<double>::AddVec(const double alpha, const VectorBase<float> &v);
-
-template<typename Real>
-Status Vector<Real>::Read(util::ReadableFile *fd) {
-  static const char *kSectionName = "VEC0";
-  Status status;
-
-  // Read section name
-  status = fd->ReadAndVerifyString(kSectionName);
-  if (!status.ok()) return status;
-
-  // Section size
-  int32_t section_size;
-  status = fd->ReadValue<int32_t>(&section_size);
-  if (!status.ok()) return status;
-
-  // Dimension
-  int32_t dim;
-  status = fd->ReadValue<int32_t>(&dim);
-  if (!status.ok()) return status;
-  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
-    return Status::Corruption(util::Format(
-        "section_size = {} * {} + 4 expected, but {} found: {}",
-        dim,
-        sizeof(Real),
-        section_size,
-        fd->filename()));
-  }
-
-  // Read data
-  Resize(dim, kUndefined);
-  status = fd->Read(Vector<Real>::Data(), dim * sizeof(Real));
-  if (!status.ok()) return status;
-
-  return Status::OK();
-}
-
-template class Vector<float>;
-template class VectorBase<float>;
-template class Vector<double>;
-template class VectorBase<double>;
-template class Vector<int32_t>;
-template class VectorBase<int32_t>;
-template class Vector<uint8_t>;
-template class VectorBase<uint8_t>;
-
-}  // namespace pocketkaldi
+
+#include "vector.h"
+
+#include <math.h>
+#include <stdlib.h>
+#include <string.h>
+#include "util.h"
+
+namespace pocketkaldi {
+
+template<typename Real>
+Vector<Real>::Vector(Vector<Real> &&v) {
+  this->dim_ = v.dim_;
+  this->data_ = v.data_;
+
+  v.dim_ = 0;
+  v.data_ = nullptr;
+}
+
+template<typename Real>
+Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+
+  Destroy();
+  this->dim_ = v.dim_;
+  this->data_ = v.data_;
+
+  v.dim_ = 0;
+  v.data_ = nullptr;
+
+  return *this;
+}
+
+template<typename Real>
+inline void Vector<Real>::Init(int dim) {
+  assert(dim >= 0);
+  if (dim == 0) {
+    this->dim_ = 0;
+    this->data_ = NULL;
+    return;
+  }
+  int size;
+  void *data;
+
+  size = dim * sizeof(Real);
+
+  if (posix_memalign(&data, 32, size) == 0) {
+    this->data_ = static_cast<Real*>(data);
+    this->dim_ = dim;
+  } else {
+    throw std::bad_alloc();
+  }
+}
+
+/// Deallocates memory and sets object to empty vector.
+template<typename Real>
+void Vector<Real>::Destroy() {
+  /// we need to free the data block if it was defined
+  if (this->data_ != NULL) free(this->data_);
+  this->data_ = NULL;
+  this->dim_ = 0;
+}
+
+template<typename Real>
+void VectorBase<Real>::Set(Real f) {
+  // Why not use memset here?
+  for (int i = 0; i < dim_; i++) { data_[i] = f; }
+}
+
+template<typename Real>
+void VectorBase<Real>::SetZero() {
+  memset(data_, 0, dim_ * sizeof(Real));
+}
+
+/// Copy data from another vector
+template<typename Real>
+void VectorBase<Real>::CopyFromVec(const VectorBase<Real> &v) {
+  assert(Dim() == v.Dim());
+  if (data_ != v.data_) {
+    memcpy(this->data_, v.data_, dim_ * sizeof(Real));
+  }
+}
+
+template<typename Real>
+Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
+  int r_dim = r.Dim();
+  assert(r_dim == Dim());
+  const Real *l_data = Data();
+  const Real *r_data = r.Data();
+  Real sum = 0.0;
+  for (int i = 0; i < r_dim; i++) {
+    sum += l_data[i] * r_data[i];
+  }
+  return sum;
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplySoftMax() {
+  Real sum = 0;
+
+  // Subtract the maximum, otherwise exp overflows for large elements
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = expf((*this)(i) - max);
+    (*this)(i) = exp_d;
+    sum += exp_d;
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    (*this)(i) /= sum;
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyLogSoftMax() {
+  Real sum = 0;
+
+  // Subtract the maximum, otherwise exp overflows for large elements
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = exp((*this)(i) - max);
+    sum += exp_d;
+  }
+  Real logsum = max + log(sum);
+  
+  for (int i = 0; i < Dim(); ++i) {
+    (*this)(i) -= logsum;
+  }
+}
+
+template<typename Real>
+void Vector<Real>::Swap(Vector<Real> *other) {
+  std::swap(this->data_, other->data_);
+  std::swap(this->dim_, other->dim_);
+}
+
+template<typename Real>
+void Vector<Real>::Resize(const int dim, int resize_type) {
+  // the next block uses recursion to handle what we have to do if
+  // resize_type == kCopyData.
+  if (resize_type == kCopyData) {
+    // nothing to copy.
+    if (this->data_ == NULL || dim == 0) resize_type = kSetZero;  
+    else if (this->dim_ == dim) { return; } // nothing to do.
+    else {
+      // set tmp to a vector of the desired size.
+      Vector<Real> tmp(dim, kUndefined);
+      if (dim > this->dim_) {
+        memcpy(tmp.data_, this->data_, sizeof(Real)*this->dim_);
+        memset(tmp.data_ + this->dim_, 0, sizeof(Real) * (dim-this->dim_));
+      } else {
+        memcpy(tmp.data_, this->data_, sizeof(Real)*dim);
+      }
+      tmp.Swap(this);
+      // and now let tmp go out of scope, deleting what was in *this.
+      return;
+    }
+  }
+  // At this point, resize_type == kSetZero or kUndefined.
+
+  if (this->data_ != NULL) {
+    if (this->dim_ == dim) {
+      if (resize_type == kSetZero) this->SetZero();
+      return;
+    } else {
+      Destroy();
+    }
+  }
+  Init(dim);
+  if (resize_type == kSetZero) this->SetZero();
+}
+
+template<typename Real>
+int VectorBase<Real>::ApplyFloor(Real floor_val) {
+  int num_floored = 0;
+  for (int i = 0; i < dim_; i++) {
+    if (data_[i] < floor_val) {
+      data_[i] = floor_val;
+      num_floored++;
+    }
+  }
+  return num_floored;
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyLog() {
+  for (int i = 0; i < dim_; i++) {
+    assert(data_[i] >= 0.0);
+    data_[i] = log(data_[i]);
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::ApplyPow(Real power) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] = pow(data_[i], power);
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::Scale(Real alpha) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] *= alpha;
+  }
+}
+
+
+template<typename Real>
+void VectorBase<Real>::Add(Real val) {
+  for (int i = 0; i < dim_; i++) {
+    data_[i] += val;
+  }
+}
+
+template<typename Real>
+void VectorBase<Real>::PrintDebug() {
+  printf("vector: dim = %d, data = [", dim_);
+  for (int i = 0; i < dim_; i++) {
+    printf("%s, ", std::to_string(data_[i]).c_str());
+  }
+  puts("]");
+}
+
+template<typename Real>
+void VectorBase<Real>::MulElements(const VectorBase<Real> &v) {
+  assert(v.Dim() == Dim() && "MulElements: vector size mismatch");
+  for (int i = 0; i < dim_; i++) {
+    data_[i] *= v(i);
+  }
+}
+
+template<typename Real>
+template<typename OtherReal>
+void VectorBase<Real>::CopyFromVec(const VectorBase<OtherReal> &other) {
+  assert(dim_ == other.Dim());
+  Real * __restrict__  ptr = data_;
+  const OtherReal * __restrict__ other_ptr = other.Data();
+  for (int i = 0; i < dim_; i++) {
+    ptr[i] = other_ptr[i];
+  }
+}
+
+template void VectorBase<float>::CopyFromVec(const VectorBase<double> &other);
+template void VectorBase<double>::CopyFromVec(const VectorBase<float> &other);
+
+template<typename Real>
+template<typename OtherReal>
+void VectorBase<Real>::AddVec(
+    const Real alpha,
+    const VectorBase<OtherReal> &v) {
+  assert(dim_ == v.dim_);
+  // remove __restrict__ if it causes compilation problems.
+  Real *__restrict__ data = data_;
+  OtherReal *__restrict__ other_data = v.data_;
+  int dim = dim_;
+  if (alpha != 1.0) {
+    for (int i = 0; i < dim; i++) {
+      data[i] += alpha * other_data[i];
+    }
+  } else {
+    for (int i = 0; i < dim; i++) {
+      data[i] += other_data[i];
+    }
+  }
+}
+
+template
+void VectorBase<float>::AddVec(const float alpha, const VectorBase<double> &v);
+template
+void VectorBase<float>::AddVec(const float alpha, const VectorBase<float> &v);
+template
+void VectorBase<double>::AddVec(const double alpha, const VectorBase<float> &v);
+
+template<typename Real>
+Status Vector<Real>::Read(util::ReadableFile *fd) {
+  static const char *kSectionName = "VEC0";
+  Status status;
+
+  // Read section name
+  status = fd->ReadAndVerifyString(kSectionName);
+  if (!status.ok()) return status;
+
+  // Section size
+  int32_t section_size;
+  status = fd->ReadValue<int32_t>(&section_size);
+  if (!status.ok()) return status;
+
+  // Dimension
+  int32_t dim;
+  status = fd->ReadValue<int32_t>(&dim);
+  if (!status.ok()) return status;
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
+    return Status::Corruption(util::Format(
+        "section_size = {} * {} + 4 expected, but {} found: {}",
+        dim,
+        sizeof(Real),
+        section_size,
+        fd->filename()));
+  }
+
+  // Read data
+  Resize(dim, kUndefined);
+  status = fd->Read(Vector<Real>::Data(), dim * sizeof(Real));
+  if (!status.ok()) return status;
+
+  return Status::OK();
+}
+
+template class Vector<float>;
+template class VectorBase<float>;
+template class Vector<double>;
+template class VectorBase<double>;
+template class Vector<int32_t>;
+template class VectorBase<int32_t>;
+template class Vector<uint8_t>;
+template class VectorBase<uint8_t>;
+
+}  // namespace pocketkaldi
-- 
2.43.0


From 19a8d07b0af94eeaf8a6d505b7811d2d6eb272d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 30/38] fix: read lines that contain NUL characters

---
 src/util.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 6e2fbfc..ffa99e8 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -97,15 +97,14 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     return false;
   }
 
-  // Readline. A line longer than chunk is read piece by piece
-  std::array<char, 4096> chunk;
+  // Readline. A line may be of any length and may contain '\0'
   std::string text;
-  char *s = NULL;
-  while ((s = fgets(chunk.data(), chunk.size(), fd_)) != NULL) {
-    text += s;
-    if (text.empty() == false && text.back() == '\n') break;
+  int ch = EOF;
+  while ((ch = getc(fd_)) != EOF) {
+    text.push_back(static_cast<char>(ch));
+    if (ch == '\n') break;
   }
-  if (s == NULL && ferror(fd_)) {
+  if (ch == EOF && ferror(fd_)) {
     *status = Status::IOError(filename_);
     return false;
   }
-- 
2.43.0


From b1d13297abda3ab3798e4ceb1d8cf8b0b6b86059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 31/38] fix: prune language models that have unigrams only

---
 tool/prune_lm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index f3541bf..beaac43 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -36,6 +36,9 @@ for line in sys.stdin:
         f = line.strip().split()
         if line.strip() == '':
             print(line.strip())
+        elif line.strip() == '\\end\\':
+            state = State.END
+            print(line.strip())
         elif line.strip()[0] == '\\':
             state = State.NGRAM
         elif len(f) in {2, 3}:
-- 
2.43.0


From 328c2ff65e7c649da563469e0126179c8f6a663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 32/38] fix: keep zero within the range of the quantiser

---
 src/matrix.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index ba84403..89da666 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -360,6 +360,11 @@ void ComputeQuantizationParams(const MatrixBase<float> &src,
   float min, max;
   FindMinMax(src, &min, &max);
 
+  // The range always includes zero: a constant matrix has no range of its own
+  // and the zero-point has to be one of the 256 levels
+  min = std::min(min, 0.0f);
+  max = std::max(max, 0.0f);
+
   double scale = (max - min) / 255.0;
 
   // Find zero-point
-- 
2.43.0


From fd9812fc81f162daac9f90e8454907e81e82107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 33/38] fix: Format must not replace placeholders inside
 inserted text

---
 src/util.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util.h b/src/util.h
index 503c6c2..81ef3cc 100644
--- a/src/util.h
+++ b/src/util.h
@@ -67,21 +67,23 @@ inline std::string ToString(const char *const &val) {
 
 namespace {
 
-inline std::string FormatImpl(const std::string &formatted) {
+inline std::string FormatImpl(const std::string &formatted, size_t) {
   return formatted;
 }
 template<typename T, typename... Args>
 inline std::string FormatImpl(
     const std::string &formatted,
+    size_t start,
     T &&item,
     Args &&...args) {
-  size_t pos = formatted.find("{}");
+  size_t pos = formatted.find("{}", start);
   std::string repl = ToString(item);
   std::string next_formatted = formatted;
   if (pos != std::string::npos) {
     next_formatted.replace(pos, 2, repl);
+    pos += repl.size();
   }
-  return FormatImpl(next_formatted, std::forward<Args>(args)...);
+  return FormatImpl(next_formatted, pos, std::forward<Args>(args)...);
 }
 
 }  // namespace
@@ -91,7 +93,7 @@ inline std::string FormatImpl(
 //   util::Format("Hello, {}, {}!", "World", "2233");
 template<typename... Args>
 inline std::string Format(const std::string &fmt, Args &&...args) {
-  return FormatImpl(fmt, std::forward<Args>(args)...);
+  return FormatImpl(fmt, 0, std::forward<Args>(args)...);
 }
 
 // Trim string 
-- 
2.43.0


From 05072ccc1acbc5f7ba2d4b8bfd23d9da72ff6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 34/38] fix: name the configuration file when a required key is
 missing

---
 src/ce_stt.cc        | 6 +++---
 src/configuration.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 740c967..8f6865c 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -70,7 +70,7 @@ Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
   if (filename == "") {
     return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
         "Unable to find key 'symbol_table' in {}",
-        filename));
+        conf.filename()));
   }
   self->symbol_table = new SymbolTable();
   PK_CHECK_STATUS(self->symbol_table->Read(filename)); 
@@ -90,7 +90,7 @@ Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
   if (original_lm_file == "") {
     return pocketkaldi::Status::Corruption(pocketkaldi::util::Format(
         "Unable to find key 'original_lm' in {}",
-        original_lm_file));
+        conf.filename()));
   }
 
   pocketkaldi::util::ReadableFile fd_original_lm;
@@ -119,7 +119,7 @@ Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
   std::string filename = conf.GetPathOrElse("fst", "");
   if (filename == "") {
     return Status::Corruption(
-        Format("Unable to find key 'fst' in {}", filename));
+        Format("Unable to find key 'fst' in {}", conf.filename()));
   }
   fst::ConstFst<fst::StdArc> *fst = fst::ConstFst<fst::StdArc>::Read(filename);
   if (!fst) {
diff --git a/src/configuration.cc b/src/configuration.cc
index 63d340e..518e2c6 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -45,7 +45,7 @@ Status Configuration::Read(const std::string &filename) {
     value = util::Trim(fields[1]);
     if (value.empty()) {
       return Status::Corruption(util::Format(
-          "Value cound not be empty: {}",
+          "Value cound not be empty in {}: {}",
           filename_,
           line));
     }
-- 
2.43.0


From 5e9b604c948a527ebfe8448018390b96a0d0c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 35/38] fix: hash table with more than 46340 colliding keys:
 the probe offset overflowed, the limit of 65536 steps aborted

---
 src/hashtable.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index da9f058..99f1db5 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -138,10 +138,12 @@ class HashTable {
   // the position to put.
   int Lookup(Item *buckets, bool *empty, int buckets_size, K key) const {
     int hashval = hash(key) % buckets_size;
-    for (int i = 1; ; ++i) {
-      assert(i < 65536);
+    for (int64_t i = 1; ; ++i) {
+      // The last probe (offset 0) is the bucket of hashval itself. More than
+      // half of the buckets are probed so there is always an empty one
+      assert(i <= buckets_size);
+      int squared = static_cast<int>(i * i % buckets_size);
       for (int sign = -1; sign <= 1; sign += 2) {
-        int squared = i * i;
         int idx = hashval + (sign == -1 ? -squared : squared);
 
         // Boundary
-- 
2.43.0


From 78c9c8efce4f927c0734984f9806ac7a3556b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 36/38] fix: a hypothesis of 100000 words aborted the process

---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index bf7585e..e7055fc 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -430,7 +430,6 @@ Decoder::Hypothesis Decoder::BestPath() {
     PK_DEBUG(util::Format("Word: {}", olabel->olabel()));
     words.push_back(olabel->olabel());
     olabel = olabel->previous();
-    assert(words.size() < 100000);
   }
 
   weight = best_cost;
-- 
2.43.0


From 79451289ec009b7e87ce1ee1893b3c1af0b38ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 37/38] fix: the byte rate of a WAV header was compared with a
 product that overflowed

---
 src/pcm_reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 0c020dc..18f4919 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -84,10 +84,12 @@ Status ReadPcmHeader(util::ReadableFile *fd, ce_wave_format_t *wave_fmt) {
   PK_CHECK_STATUS(fd->ReadValue(&block_align));
   PK_CHECK_STATUS(fd->ReadValue(&bits_per_sample));
 
-  if (bytes_rate != sample_rate * bits_per_sample / 8) {
+  int64_t expected_rate =
+      static_cast<int64_t>(sample_rate) * bits_per_sample / 8;
+  if (bytes_rate != expected_rate) {
     return Status::Corruption(util::Format(
         "bytes_rate == {} expected, but {} found: {}",
-        sample_rate * bits_per_sample / 8,
+        expected_rate,
         bytes_rate,
         fd->filename()));
   }
-- 
2.43.0


From d9626dc8937ce7a4bd59f1b4929c5b0a224a8064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 38/38] fix: a second end of stream decoded the last frames of
 the utterance again

---
 src/am.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index adcaca4..489b5c9 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -177,6 +177,10 @@ void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
   }
 
   ComputeBatch(inst, kBatchSizeAll, log_prob);
+
+  // All frames are done. Another EndOfStream() should not compute them again
+  inst->feats_buffer.clear();
+  inst->started = false;
 }
 
 }  // namespace pocketkaldi
-- 
2.43.0

