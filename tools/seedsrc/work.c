/* Chain steps of every signing call against what (TH-K)/2+2 leaves and the announced one-time signatures may cost.
   work FUNC N W TH D K COUNT FIXED: signs COUNT times; FIXED = number of leaves allowed instead (0: the fast signer's bound) */
#include "common.h"
extern unsigned long cheap_steps;
int main(int c, char **v)
{
    xmss_params p = shape(atoi(v[1]), atoi(v[2]), atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]));
    long i, cnt = atol(v[7]), leaves = atol(v[8]) ? atol(v[8]) : (p.tree_height - p.bds_k) / 2 + 2;
    u8 *pk = calloc(1, p.pk_bytes), *sk = calloc(1, p.sk_bytes), *sm = malloc(p.sig_bytes + 16), m[16] = {0};
    ull n;
    (p.d > 1 ? xmssmt_core_keypair : xmss_core_keypair)(&p, pk, sk);
    for (i = 0; i < cnt; i++) {
        unsigned long sigs = 1, bound; unsigned l;
        for (l = 1; l < p.d; l++) if (((i + 1) & ((1L << (l * p.tree_height)) - 1)) == 0) sigs++;
        if (atol(v[8])) sigs = p.d;
        bound = (leaves + sigs) * p.wots_len * (p.wots_w - 1); cheap_steps = 0;
        if ((p.d > 1 ? xmssmt_core_sign : xmss_core_sign)(&p, sk, sm, &n, m, 16)) { printf("%ld: signing fails\n", i); return 1; }
        if (cheap_steps > bound) { printf("signature %ld costs %lu chain steps, bound %lu\n", i, cheap_steps, bound); return 1; }
    }
    return 0;
}
