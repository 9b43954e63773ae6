/* Cheap stand-in for hash.c, so that long histories take seconds: every function still depends on all its inputs. */
#include <stdint.h>
#include <string.h>
#include "params.h"
#include "hash.h"
#include "utils.h"
void addr_to_bytes(unsigned char *b, const uint32_t a[8]) { int i; for (i = 0; i < 8; i++) ull_to_bytes(b + 4 * i, 4, a[i]); }
static uint64_t mix(uint64_t s, const unsigned char *p, unsigned long long n)
{
    unsigned long long i; uint64_t x;
    for (i = 0; i + 8 <= n; i += 8) { memcpy(&x, p + i, 8); s = (s ^ x) * 0x9E3779B97F4A7C15ULL; s ^= s >> 29; }
    for (; i < n; i++) s = (s ^ p[i]) * 0x9E3779B97F4A7C15ULL;
    return s;
}
static void out_(unsigned char *o, unsigned n, uint64_t s)
{
    unsigned i; uint64_t z;
    for (i = 0; i + 8 <= n; i += 8) { s += 0x9E3779B97F4A7C15ULL; z = (s ^ (s >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 27; memcpy(o + i, &z, 8); }
}
static uint64_t am(uint64_t s, const uint32_t *a, int w) { int i; for (i = 0; i < w; i++) { s = (s ^ a[i]) * 0xD6E8FEB86659FD93ULL; s ^= s >> 32; } return s; }
int prf(const xmss_params *p, unsigned char *out, const unsigned char in[32], const unsigned char *key) { out_(out, p->n, mix(mix(1, in, 32), key, p->n)); return 0; }
int prf_keygen(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *key) { out_(out, p->n, mix(mix(2, in, p->n + 32), key, p->n)); return 0; }
int thash_h(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *pub, uint32_t a[8]) { out_(out, p->n, am(mix(mix(3, in, 2 * p->n), pub, p->n), a, 7)); a[7] = 2; return 0; }
unsigned long cheap_steps;   /* chain steps so far */
int thash_f(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *pub, uint32_t a[8]) { cheap_steps++; out_(out, p->n, am(mix(mix(4, in, p->n), pub, p->n), a, 7)); a[7] = 1; return 0; }
int hash_message(const xmss_params *p, unsigned char *out, const unsigned char *R, const unsigned char *root, unsigned long long idx, unsigned char *m, unsigned long long mlen)
{
    unsigned char b[8]; ull_to_bytes(b, 8, idx);
    out_(out, p->n, mix(mix(mix(mix(5, R, p->n), root, p->n), b, 8), m + p->padding_len + 3 * p->n, mlen)); return 0;
}
