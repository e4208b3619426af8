from mk import *
CA='Tensor/CachedAllocator.cpp'
BASE='''
#include "Tensor/CachedAllocator.h"
#include "Tensor/Storage.h"
#include <map>
#include <vector>
#include <cstring>
struct Base : Allocator {
  std::map<char*, int64_t> live; int64_t used = 0, limit = INT64_MAX; int bad = 0;
  void* allocate(int64_t n) override { if (used + n > limit) return nullptr; char* p = (char*)aligned_alloc(32, n); live[p] = n; used += n; return p; }
  void deallocate(void* p) override { auto it = live.find((char*)p); if (it == live.end()) { bad++; return; } used -= it->second; live.erase(it); }   // never really freed: the demo inspects it
  bool holds(void* p, int64_t n) { for (auto& e : live) if ((char*)p >= e.first && (char*)p + n <= e.first + e.second) return true; return false; }
};
'''
B('s68-alloc-misalign','C23',[(CA,"    return kMinBlockSize * ((size + kMinBlockSize - 1) / kMinBlockSize);","    if (size > kMinLargeAlloc) {\n      return size;\n    }\n    return kMinBlockSize * ((size + kMinBlockSize - 1) / kMinBlockSize);")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  void* a = c.allocate(40 << 20); c.deallocate(a);
  void* x = c.allocate((11 << 20) + 4); void* y = c.allocate(11 << 20);
  EXPECT((uintptr_t)x % 32 == 0); EXPECT((uintptr_t)y % 32 == 0);
  return bad;
}
''','a tensor over 10 MiB cut from a larger cached block, with an odd size','the memory of the next tensor is not aligned')
B('s69-alloc-large','C23',[(CA,"return kRoundLarge * ((size + kRoundLarge - 1) / kRoundLarge);","return kRoundLarge * (size / kRoundLarge);")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  for (int64_t n : {100ll, 2000000ll, 10485760ll, 11534337ll, 33554433ll}) { void* p = c.allocate(n); EXPECT(b->holds(p, n)); }
  return bad;
}
''','a tensor over 10 MiB whose size is not a multiple of 2 MiB','large allocations are shorter than requested')
B('s70-alloc-release','C23',[(CA,"if (!block->prev && !block->next) {","if (!block->prev) {")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  b->limit = 4 << 20;
  void* a = c.allocate(1000); void* m = c.allocate(3000);
  c.deallocate(a);
  void* big = c.allocate(15 << 20); EXPECT(big == nullptr);
  EXPECT(b->holds(m, 3000));
  return bad;
}
''','an allocation fails while the first block of a shared segment is free','memory in use is given back to the system when an allocation fails')
B('s71-alloc-retry','C23',[(CA,"""        releaseCachedBlocks();
        blockFound = allocBlock(params);
""","""        blockFound = allocBlock(params);
        releaseCachedBlocks();
""")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  b->limit = 24 << 20;
  void* a = c.allocate(12 << 20); EXPECT(a != nullptr); c.deallocate(a);
  void* q = c.allocate(14 << 20); EXPECT(q != nullptr);
  return bad;
}
''','memory runs out while cached memory could be released','an allocation that would succeed after releasing the cache fails')
B('s72-alloc-tie','C23',[(CA,"return reinterpret_cast<uintptr_t>(a->ptr) < reinterpret_cast<uintptr_t>(b->ptr);","return reinterpret_cast<uintptr_t>(a->pool) < reinterpret_cast<uintptr_t>(b->pool);")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  void* p[6]; for (auto& x : p) x = c.allocate(3 << 20);
  for (int i : {0, 2, 4}) c.deallocate(p[i]);
  std::vector<char*> q; for (int i = 0; i < 3; i++) q.push_back((char*)c.allocate(3 << 20));
  int64_t used = b->used; (void)used;
  for (int i : {0, 2, 4}) { bool f = false; for (auto x : q) f |= x == (char*)p[i]; EXPECT(f); }
  return bad;
}
''','two free blocks of one size in the same pool','free blocks of equal size are dropped from the free list (memory lost)')
B('s73-alloc-nomerge','C23',[(CA,"    if (!src || src->allocated) {","    if (!src || src->allocated || src->size > kMinLargeAlloc) {")],BASE+'''int main() {
  auto* b = new Base(); CachedAllocator& c = *new CachedAllocator(std::unique_ptr<Allocator>(b));
  b->limit = 24 << 20;
  void* a = c.allocate(3 << 20); EXPECT(a != nullptr); c.deallocate(a);
  void* q = c.allocate(19 << 20); EXPECT(q != nullptr);
  return bad;
}
''','a block freed next to a free rest of more than 10 MiB','the two free blocks are not merged: the segment can never be reused as a whole or released')
R('r28-alloc-merge',[(CA,"""    const std::array<Block*, 2> mergeCandidates = {block->prev, block->next};
    for (Block* candidate : mergeCandidates) {
      tryMergeBlocks(block, candidate, pool);
    }
    pool.blocks.insert(block);""","""    Block* left = block->prev;
    Block* right = block->next;
    if (right && !right->allocated) {
      tryMergeBlocks(block, right, pool);
    }
    if (left && !left->allocated) {
      tryMergeBlocks(block, left, pool);
    }
    pool.blocks.insert(block);"""),
 (CA,"""    auto it = pool.blocks.begin();
    while (it != pool.blocks.end()) {
      Block* block = *it;
      ++it;
      if (!block->prev && !block->next) {
        releaseBlock(block);
      }
    }""","""    std::vector<Block*> whole;
    for (Block* block : pool.blocks) {
      if (!block->isSplit()) {
        whole.push_back(block);
      }
    }
    for (Block* block : whole) {
      releaseBlock(block);
    }"""),
 (CA,"#include <set>","#include <set>\n#include <vector>"),
 (CA,"""    base_->deallocate(block->ptr);
    totalAllocatedSize_ -= block->size;
    auto* pool = block->pool;
    pool->blocks.erase(block);
    delete block;""","""    block->pool->blocks.erase(block);
    totalAllocatedSize_ -= block->size;
    void* memory = block->ptr;
    delete block;
    base_->deallocate(memory);"""),
 (CA,"""    const size_t subsumedSize = src->size;
    dst->size += subsumedSize;
    pool.blocks.erase(src);
    delete src;

    return subsumedSize;""","""    pool.blocks.erase(src);
    const auto merged = dst->size + src->size;
    const size_t gained = merged - dst->size;
    dst->size = merged;
    delete src;
    return gained;""")])
R('r29-alloc-split',[(CA,"""    if (size < kMinBlockSize) {
      return kMinBlockSize;
    }
    return kMinBlockSize * ((size + kMinBlockSize - 1) / kMinBlockSize);""","""    const size_t rounded = (size + kMinBlockSize - 1) & ~(kMinBlockSize - 1);
    return std::max(rounded, kMinBlockSize);"""),
 (CA,"#include <array>","#include <algorithm>\n#include <array>"),
 (CA,"""  if (a->size != b->size) {
    return a->size < b->size;
  }
  return reinterpret_cast""","""  if (a->size < b->size) return true;
  if (b->size < a->size) return false;
  return reinterpret_cast"""),
 (CA,"""    if (shouldSplit(block, size)) {
      Block* remaining = block;

      block = new Block(size, &pool, block->ptr);
      block->prev = remaining->prev;
      if (block->prev) {
        block->prev->next = block;
      }
      block->next = remaining;

      remaining->prev = block;
      remaining->ptr = static_cast<char*>(remaining->ptr) + size;
      remaining->size -= size;
      pool.blocks.insert(remaining);
    }
""","""    if (shouldSplit(block, size)) {
      // keep the front, cut the tail off
      Block* tail = new Block(block->size - size, &pool, static_cast<char*>(block->ptr) + size);
      linkAfter(block, tail);
      block->size = size;
      pool.blocks.insert(tail);
    }
"""),
 (CA,"""  static void freeImpl(Block* block) {""","""  static void linkAfter(Block* head, Block* tail) {
    tail->next = head->next;
    tail->prev = head;
    if (Block* follow = tail->next) {
      follow->prev = tail;
    }
    head->next = tail;
  }

  static void freeImpl(Block* block) {"""),
 (CA,"""    Block* block = mallocImpl(nbytes);
    if (block) {
      activeBlocks[block->ptr] = block;
      return block->ptr;
    }

    LOGE("allocate error, size: %lld", nbytes);
    return nullptr;""","""    Block* block = mallocImpl(nbytes);
    if (!block) {
      LOGE("allocate error, size: %lld", nbytes);
      return nullptr;
    }
    void* memory = block->ptr;
    activeBlocks.emplace(memory, block);
    return memory;"""),
 (CA,"""    auto it = activeBlocks.find(ptr);
    if (it != activeBlocks.end()) {
      freeImpl(it->second);
      activeBlocks.erase(it);
    } else {""","""    auto it = activeBlocks.find(ptr);
    if (it != activeBlocks.end()) {
      auto* block = it->second;
      activeBlocks.erase(it);
      freeImpl(block);
    } else {""")])
