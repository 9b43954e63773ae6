/* Shared by the demonstrations: fixed randomness, parameter sets, small helpers. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
typedef unsigned char u8;
typedef unsigned long long ull;
#ifndef OWN_RANDOM
static uint64_t demo_s = 88172645463325252ULL;
void randombytes(unsigned char *x, unsigned long long n)
{
    while (n--) { demo_s ^= demo_s << 13; demo_s ^= demo_s >> 7; demo_s ^= demo_s << 17; *x++ = (u8)(demo_s >> 32); }
}
#endif
static inline xmss_params shape(int func, unsigned n, unsigned w, unsigned th, unsigned d, unsigned k)
{
    xmss_params p;
    memset(&p, 0, sizeof p);
    p.func = func; p.n = n; p.wots_w = w; p.full_height = th * d; p.d = d; p.bds_k = k;
    p.padding_len = n == 24 ? 4 : n;
    if (xmss_xmssmt_initialize_params(&p)) { printf("parameters refused\n"); exit(2); }
    return p;
}
static inline uint64_t fnv(uint64_t h, const u8 *p, size_t n) { while (n--) h = (h ^ *p++) * 0x100000001B3ULL; return h; }
#define FNV0 0xcbf29ce484222325ULL
