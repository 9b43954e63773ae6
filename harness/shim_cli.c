/* Linked into the command-line tools under test: with VERIF_RNG set, random bytes come from a seeded stream, so that a
   case can be replayed; with VERIF_OOM=n, the n-th request for memory is refused (-n: and all later ones). */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
static int oom(void) {
    static int at, count, init;
    if (!init) { const char *e = getenv("VERIF_OOM"); init = 1; at = e ? atoi(e) : 0; }
    if (!at) return 0;
    count++;
    if (count == at || (at < 0 && count >= -at)) { (void)!write(2, "[memory refused]", 16); errno = ENOMEM; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { return oom() ? 0 : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return oom() ? 0 : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return oom() ? 0 : __real_realloc(p, n); }
void __real_randombytes(unsigned char *x, unsigned long long xlen);
static uint64_t s; static int on = -1;
void __wrap_randombytes(unsigned char *x, unsigned long long xlen) {
    if (on < 0) { const char *e = getenv("VERIF_RNG"); on = e != 0; if (e) s = strtoull(e, 0, 10) * 0x9E3779B97F4A7C15ULL + 77; }
    if (!on) { __real_randombytes(x, xlen); return; }
    while (xlen--) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; *x++ = (unsigned char)((z ^ (z >> 31)) >> 24);
    }
}
