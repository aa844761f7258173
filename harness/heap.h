// Counts live heap bytes and blocks by interposing the allocator (no sanitizer in this build).
#ifndef HEAP_H_
#define HEAP_H_
#include <errno.h>
#include <malloc.h>
#include <atomic>
#include "vh.h"
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
static std::atomic<long> g_bytes(0), g_blocks(0);
static inline void *HeapIn(void *p) {
  if (p) { g_bytes += (long)malloc_usable_size(p); ++g_blocks; }
  return p;
}
static inline void HeapOut(void *p) {
  if (p) { g_bytes -= (long)malloc_usable_size(p); --g_blocks; }
}
extern "C" {
void *malloc(size_t n) { return HeapIn(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return HeapIn(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  HeapOut(p);
  void *q = __libc_realloc(p, n);
  if (!q && n) { HeapIn(p); return nullptr; }
  return HeapIn(q);
}
void free(void *p) { HeapOut(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { return HeapIn(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return HeapIn(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
  void *q = HeapIn(__libc_memalign(a, n));
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
}
struct HeapMark {
  long b = 0, k = 0;
  void Start() { b = g_bytes; k = g_blocks; }
  void Stop() { b = g_bytes - b; k = g_blocks - k; }
  void Put(vh::Ev *e) { e->raw("d", "[" + std::to_string(b) + "," + std::to_string(k) + "]"); }
};
#endif
