/* Linked with ld --wrap in front of the allocation functions: what the library under test holds at any moment. */
#define _GNU_SOURCE
#include <malloc.h>
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
struct verif_res { long long blocks, bytes, peak; } verif_res;
static void plus(void *p) { if (!p) return; verif_res.blocks++; verif_res.bytes += (long long)malloc_usable_size(p); if (verif_res.bytes > verif_res.peak) verif_res.peak = verif_res.bytes; }
static void minus(void *p) { if (!p) return; verif_res.blocks--; verif_res.bytes -= (long long)malloc_usable_size(p); }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_reallocarray(void *, size_t, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); plus(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); plus(p); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p; minus(o); p = __real_realloc(o, n); if (p) plus(p); else if (o && n) plus(o); return p; }
void *__wrap_reallocarray(void *o, size_t a, size_t b) { void *p; minus(o); p = __real_reallocarray(o, a, b); if (p) plus(p); else if (o && a && b) plus(o); return p; }
void __wrap_free(void *p) { minus(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) plus(*p); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); plus(p); return p; }
void *__wrap_memalign(size_t a, size_t n) { void *p = __real_memalign(a, n); plus(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); plus(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); plus(p); return p; }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = __real_mmap(a, n, pr, fl, fd, o); if (p != MAP_FAILED) { verif_res.blocks++; verif_res.bytes += (long long)n; if (verif_res.bytes > verif_res.peak) verif_res.peak = verif_res.bytes; } return p; }
int __wrap_munmap(void *a, size_t n) { verif_res.blocks--; verif_res.bytes -= (long long)n; return __real_munmap(a, n); }
