// Allocation tracking and fault injection for calls into the library under test.
#include "vp.hpp"
#include <new>
#include <pthread.h>
namespace vp { namespace mem {
static thread_local int depth;
static bool on;                                  // tracking enabled (single-threaded jobs only)
enum { TAB = 1 << 12 };
static void *tab[TAB]; static long nlive, nalloc; static long fail_at; static bool fail_all, did_fail, overflow;
void enter() { depth++; }
void leave() { depth--; }
long live() { return overflow ? 0 : nlive; }
long allocs() { return nalloc; }
bool failed() { return did_fail; }
void reset() { memset(tab, 0, sizeof tab); nlive = nalloc = 0; fail_at = 0; did_fail = false; overflow = false; on = true; }
void set_fail(long nth, bool all) { fail_at = nth ? nalloc + nth : 0; fail_all = all; did_fail = false; }
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 52; }
[[maybe_unused]] static void add(void *p) { if (!p) return; if (nlive >= TAB / 2) { overflow = true; return; } size_t s = slot(p); while (tab[s] && tab[s] != (void *)1) s = (s + 1) % TAB; tab[s] = p; nlive++; }
[[maybe_unused]] static void del(void *p) { if (!p || !nlive) return; size_t s = slot(p); for (int k = 0; k < TAB && tab[s]; k++, s = (s + 1) % TAB) if (tab[s] == p) { tab[s] = (void *)1; nlive--; return; } }
[[maybe_unused]] static bool should_fail() { if (!on || depth <= 0) return false; nalloc++; if (fail_at && (nalloc == fail_at || (fail_all && nalloc > fail_at))) { did_fail = true; return true; } return false; }
// New blocks of the library are filled with rubbish, so that nothing can rely on what a block happens to contain.
[[maybe_unused]] static void *dirty(void *p, size_t n) { static unsigned char k; if (p && n <= 65536) memset(p, k = (unsigned char)(k * 5 + 0x3B), n); return p; }
[[maybe_unused]] static bool tracking() { return on && depth > 0; }
} }

#if defined(VP_INTERPOSE)
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
using namespace vp::mem;
void *malloc(size_t n) { if (should_fail()) { errno = ENOMEM; return nullptr; } void *p = __libc_malloc(n); if (tracking()) { add(p); dirty(p, n); } return p; }
void *calloc(size_t a, size_t b) { if (should_fail()) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(a, b); if (tracking()) add(p); return p; }
void *realloc(void *q, size_t n) { if (should_fail()) { errno = ENOMEM; return nullptr; } if (on) del(q); void *p = __libc_realloc(q, n); if (tracking()) add(p); return p; }
void free(void *p) { if (on) del(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { if (should_fail()) { errno = ENOMEM; return nullptr; } void *p = __libc_memalign(a, n); if (tracking()) add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
bool vp::mem::available = true; bool vp::mem::can_fail = true;
#elif defined(VP_ASAN_HOOKS)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void mh(const volatile void *p, size_t) { if (vp::mem::tracking()) vp::mem::add((void *)p); }
static void fh(const volatile void *p) { if (vp::mem::on) vp::mem::del((void *)p); }
static int installed = __sanitizer_install_malloc_and_free_hooks(mh, fh);
bool vp::mem::available = true; bool vp::mem::can_fail = false;
#else
bool vp::mem::available = false; bool vp::mem::can_fail = false;
#endif
