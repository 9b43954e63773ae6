/* What a 32-bit program needs here, where there is no 32-bit C library: system calls, memory, strings, 64-bit division. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
typedef unsigned char u8;
static int sys3(int n, int a, int b, int c) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
void os_end(int s) { for (;;) sys3(1, s, 0, 0); }
int main(void);
__attribute__((force_align_arg_pointer)) void _start(void) { os_end(main()); }
void *memcpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *memset(void *d, int c, size_t n) { void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void *memmove(void *d, const void *s, size_t n) {
    u8 *a = d; const u8 *b = s;
    if (a <= b || a >= b + n) return memcpy(d, s, n);
    while (n--) { a[n] = b[n]; __asm__ volatile("" : : : "memory"); }
    return d;
}
int memcmp(const void *a, const void *b, size_t n) { const u8 *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
void *memchr(const void *a, int c, size_t n) { const u8 *x = a; for (; n; n--, x++) if (*x == (u8)c) return (void *)x; return 0; }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile("" : : : "memory"); } return n; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (u8)*a - (u8)*b; if (!*a) break; } return 0; }
int strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
/* a fixed area handed out from the front; what is given back is not used again before the next reset */
static u8 heap[1u << 26] __attribute__((aligned(16))); static uint32_t used, high; static int fill_ = 0x11;
void *malloc(size_t n) { uint32_t at = used; if (n > sizeof heap - 64 || used > sizeof heap - 64 - n) return 0; used = (at + n + 31) & ~15u; memset(heap + at, fill_ ^ 0xff, n); if (used > high) high = used; return heap + at; }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b) { void *p; if (b && a > 0xffffffffu / b) return 0; p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n) { void *p = malloc(n); if (p && o) memcpy(p, o, n); return p; }
int posix_memalign(void **p, size_t a, size_t n) { u8 *q = malloc(n + a); if (!q) return 12; *p = (void *)(((uintptr_t)q + a - 1) & ~(a - 1)); return 0; }
void *aligned_alloc(size_t a, size_t n) { void *p = 0; posix_memalign(&p, a, n); return p; }
void *os_alloc(uint32_t n) { void *p = malloc(n ? n : 1); if (!p) os_end(4); return p; }
void os_reset(int fill) { if (fill >= 0) { used = 0; fill_ = fill; } else fill_ = -1 - fill; }
int os_read(void *p, uint32_t n) { u8 *c = p; while (n) { int r = sys3(3, 0, (int)c, (int)n); if (r <= 0) return 1; c += r; n -= (uint32_t)r; } return 0; }
void os_write(const void *p, uint32_t n) { const u8 *c = p; while (n) { int r = sys3(4, 1, (int)c, (int)n); if (r <= 0) os_end(0); c += r; n -= (uint32_t)r; } }
void abort(void) { os_end(134); for (;;) { } }
void exit(int s) { os_end(s); for (;;) { } }
void _exit(int s) { os_end(s); for (;;) { } }
void __assert_fail(const char *a, const char *f, unsigned l, const char *u) { (void)a; (void)f; (void)l; (void)u; os_end(134); for (;;) { } }
void __stack_chk_fail(void) { os_end(134); for (;;) { } }
/* the random source is replaced, but its code is linked in */
static int errno_; int *__errno_location(void) { return &errno_; }
int open(const char *f, int o, ...) { (void)f; (void)o; return -1; }
int openat(int d, const char *f, int o, ...) { (void)d; (void)f; (void)o; return -1; }
int open64(const char *f, int o, ...) { (void)f; (void)o; return -1; }
int read(int f, void *p, size_t n) { (void)f; (void)p; (void)n; return -1; }
int write(int f, const void *p, size_t n) { (void)f; (void)p; return (int)n; }
int close(int f) { (void)f; return 0; }
int getrandom(void *p, size_t n, unsigned f) { (void)p; (void)n; (void)f; return -1; }
int getentropy(void *p, size_t n) { (void)p; (void)n; return -1; }
unsigned sleep(unsigned s) { (void)s; return 0; }
int usleep(unsigned s) { (void)s; return 0; }
int nanosleep(const void *a, void *b) { (void)a; (void)b; return 0; }
/* 64-bit division */
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t *r) {
    uint64_t q = 0, m = 0; int i;
    for (i = 63; i >= 0; i--) { uint32_t c = (uint32_t)(m >> 63); m = m << 1 | (a >> i & 1); if (c || m >= b) { m -= b; q |= 1ULL << i; } }
    if (r) *r = m;
    return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t q = __udivmoddi4(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, 0); return (int64_t)((a < 0) != (b < 0) ? -q : q); }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; __udivmoddi4(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, &r); return (int64_t)(a < 0 ? -r : r); }
int64_t __divmoddi4(int64_t a, int64_t b, int64_t *r) { *r = __moddi3(a, b); return __divdi3(a, b); }
int __popcountdi2(uint64_t x) { int n = 0; while (x) { x &= x - 1; n++; } return n; }
void *__memcpy_chk(void *d, const void *s, size_t n, size_t m) { if (n > m) abort(); return memcpy(d, s, n); }
void *__memset_chk(void *d, int c, size_t n, size_t m) { if (n > m) abort(); return memset(d, c, n); }
void *__memmove_chk(void *d, const void *s, size_t n, size_t m) { if (n > m) abort(); return memmove(d, s, n); }
