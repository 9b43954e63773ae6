/* Linked into the mock build with --wrap=wots_pkgen,wots_sign,wots_pk_from_sig,thash_h. */
#include <stdint.h>
#include "params.h"
#include "mockmix.h"

unsigned long long verif_mock_calls[4];
void (*verif_wots_log)(const uint32_t addr[8], const unsigned char *msg, unsigned n);

void (*verif_mock_yield)(void);
#ifdef VERIF_NO_COUNT
#define CALL(i) do { if (verif_mock_yield) verif_mock_yield(); } while (0)
#else
#define CALL(i) do { verif_mock_calls[i]++; if (verif_mock_yield) verif_mock_yield(); } while (0)
#endif

static void trash(const xmss_params *p, uint32_t addr[8]) { addr[5] = p->wots_len - 1; addr[6] = p->wots_w - 2; addr[7] = 1; }

void __wrap_wots_pkgen(const xmss_params *p, unsigned char *pk, const unsigned char *seed, const unsigned char *pub, uint32_t addr[8]) {
    CALL(0);
    mm_wots_pk(pk, p->n, p->wots_len, seed, pub, addr); trash(p, addr);
}
void __wrap_wots_sign(const xmss_params *p, unsigned char *sig, const unsigned char *msg, const unsigned char *seed, const unsigned char *pub, uint32_t addr[8]) {
    unsigned char m[64];
    CALL(1);
    memcpy(m, msg, p->n);
    if (verif_wots_log) verif_wots_log(addr, m, p->n);
    mm_wots_pk(sig, p->n, p->wots_len, seed, pub, addr);
    mm_wots_pad(sig, p->n, p->wots_len, m, pub, addr); trash(p, addr);
}
void __wrap_wots_pk_from_sig(const xmss_params *p, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const unsigned char *pub, uint32_t addr[8]) {
    unsigned char m[64];
    CALL(2);
    memcpy(m, msg, p->n);
    if (pk != sig) memmove(pk, sig, (size_t)p->n * p->wots_len);
    mm_wots_pad(pk, p->n, p->wots_len, m, pub, addr); trash(p, addr);
}
int __wrap_thash_h(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *pub, uint32_t addr[8]) {
    CALL(3);
    mm_node(out, p->n, in, pub, addr); addr[7] = 2;
    return 0;
}
