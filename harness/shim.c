/* Linked into every library build: random source under control of the harness (--wrap=randombytes), and
   the one-shot SHA-2 functions over libcrypto's low-level interface (same function, without the provider
   lookup that dominates the cost of short inputs). -DSHIM_NO_SHA leaves libcrypto's own in place. */
#include <stddef.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/sha.h>

void __real_randombytes(unsigned char *x, unsigned long long xlen);
static void (*rng)(unsigned char *, unsigned long long);
void verif_set_rng(void (*f)(unsigned char *, unsigned long long)) { rng = f; }
void __wrap_randombytes(unsigned char *x, unsigned long long xlen) {
    if (rng) rng(x, xlen); else __real_randombytes(x, xlen);
}
/* "yield" builds: the harness gets control inside every hash computation. */
#ifdef SHIM_YIELD
void (*verif_yield)(void);
#define YIELD() do { if (verif_yield) verif_yield(); } while (0)
unsigned long long verif_long_bytes;      /* bytes in inputs too long for anything but a message */
#define LONG(n) do { if ((n) >= 1000) verif_long_bytes += (n); } while (0)
void __real_shake128(unsigned char *, unsigned long long, const unsigned char *, unsigned long long) __attribute__((weak));
void __real_shake256(unsigned char *, unsigned long long, const unsigned char *, unsigned long long) __attribute__((weak));
void __wrap_shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { YIELD(); LONG(il); __real_shake128(o, ol, i, il); YIELD(); }
void __wrap_shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { YIELD(); LONG(il); __real_shake256(o, ol, i, il); YIELD(); }
#else
#define YIELD() do { } while (0)
#define LONG(n) do { } while (0)
#endif
#ifndef SHIM_NO_SHA
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) {
    SHA256_CTX c; YIELD(); LONG(n); SHA256_Init(&c); SHA256_Update(&c, d, n); SHA256_Final(md, &c); YIELD(); return md;
}
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md) {
    SHA512_CTX c; YIELD(); LONG(n); SHA512_Init(&c); SHA512_Update(&c, d, n); SHA512_Final(md, &c); YIELD(); return md;
}
#endif
