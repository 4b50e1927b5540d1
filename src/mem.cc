#include "mem.h"
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#if defined(CFG_plain)
// Interposes the whole malloc family (also for the shared brotli libraries and
// operator new), and counts usable bytes.
static std::atomic<size_t> g_live{0}, g_peak{0};
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* In(void* p) {
  if (!p) return p;
  size_t n = malloc_usable_size(p), l = g_live.fetch_add(n, std::memory_order_relaxed) + n, k = g_peak.load(std::memory_order_relaxed);
  while (l > k && !g_peak.compare_exchange_weak(k, l, std::memory_order_relaxed)) {}
  return p;
}
static void Out(void* p) { if (p) g_live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed); }
void* malloc(size_t n) { return In(__libc_malloc(n)); }
void free(void* p) { Out(p); int e = errno; __libc_free(p); errno = e; }
void* calloc(size_t a, size_t b) { return In(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { Out(p); void* q = __libc_realloc(p, n); if (!q && n) { In(p); return q; } return In(q); }
void* memalign(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = In(__libc_memalign(a, n)); if (!p) return ENOMEM; *o = p; return 0; }
}
bool MemTracked() { return true; }
void MemReset() { g_peak.store(g_live.load()); }
MemStat MemNow() { return MemStat{g_live.load(), g_peak.load()}; }
#else
bool MemTracked() { return false; }
void MemReset() {}
MemStat MemNow() { return MemStat{0, 0}; }
#endif
