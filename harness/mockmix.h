/* Cheap stand-ins for WOTS+ and the tree hash, shared by the mock build of the library (mock.c) and the
   model (ref.cpp). They depend on everything the real functions may depend on, and on nothing else. */
#ifndef MOCKMIX_H
#define MOCKMIX_H
#include <stdint.h>
#include <string.h>

static inline uint64_t mm_fin(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline uint64_t mm_absorb(uint64_t s, const unsigned char *p, unsigned n) {
    unsigned i;
    for (i = 0; i + 8 <= n; i += 8) { uint64_t x; memcpy(&x, p + i, 8); s = (s ^ x) * 0x9E3779B97F4A7C15ULL; s ^= s >> 29; }
    return s;
}
static inline void mm_expand(unsigned char *out, unsigned n, uint64_t s) {
    unsigned i;
    for (i = 0; i + 8 <= n; i += 8) { uint64_t x = mm_fin(s += 0x9E3779B97F4A7C15ULL); memcpy(out + i, &x, 8); }
}
static inline uint64_t mm_addr(uint64_t s, const uint32_t *addr, int words) {
    int i;
    for (i = 0; i < words; i++) { s = (s ^ addr[i]) * 0xD6E8FEB86659FD93ULL; s ^= s >> 32; }
    return s;
}
/* WOTS+: words 0..4 of the address identify the key pair. */
static inline void mm_wots_pk(unsigned char *pk, unsigned n, unsigned len, const unsigned char *seed, const unsigned char *pub, const uint32_t addr[8]) {
    uint64_t s = mm_addr(mm_absorb(mm_absorb(1, seed, n), pub, n), addr, 5);
    mm_expand(pk, n * len, mm_fin(s));
}
static inline void mm_wots_pad(unsigned char *x, unsigned n, unsigned len, const unsigned char *msg, const unsigned char *pub, const uint32_t addr[8]) {
    uint64_t s = mm_fin(mm_addr(mm_absorb(mm_absorb(7, msg, n), pub, n), addr, 5));
    unsigned i;
    for (i = 0; i + 8 <= n * len; i += 8) { uint64_t a, b = mm_fin(s += 0x9E3779B97F4A7C15ULL); memcpy(&a, x + i, 8); a ^= b; memcpy(x + i, &a, 8); }
}
/* Tree hash: words 0..6 (word 7 is set by the function itself). */
static inline void mm_node(unsigned char *out, unsigned n, const unsigned char *in, const unsigned char *pub, const uint32_t addr[8]) {
    uint64_t s = mm_addr(mm_absorb(mm_absorb(3, in, 2 * n), pub, n), addr, 7);
    mm_expand(out, n, mm_fin(s));
}
#endif
