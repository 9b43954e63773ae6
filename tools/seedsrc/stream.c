/* Prints one line per signature of a key with fixed randomness: index and a hash of the signature bytes.
   stream FUNC N W TH D K COUNT [verify] */
#include "common.h"
int main(int c, char **v)
{
    xmss_params p = shape(atoi(v[1]), atoi(v[2]), atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]));
    long i, cnt = atol(v[7]);
    u8 *pk = calloc(1, p.pk_bytes), *sk = calloc(1, p.sk_bytes), *sm = malloc(p.sig_bytes + 16), *o = malloc(p.sig_bytes + 16);
    ull n, ml;
    (p.d > 1 ? xmssmt_core_keypair : xmss_core_keypair)(&p, pk, sk);
    for (i = 0; i < cnt; i++) {
        u8 m[16] = {0};
        m[0] = (u8)i; m[1] = (u8)(i >> 8);
        if ((p.d > 1 ? xmssmt_core_sign : xmss_core_sign)(&p, sk, sm, &n, m, 16)) { printf("%ld: signing fails\n", i); return 1; }
        if (c > 8) {
            if ((p.d > 1 ? xmssmt_core_sign_open : xmss_core_sign_open)(&p, o, &ml, sm, n, pk) || ml != 16 || memcmp(o, m, 16)) { printf("signature %ld does not verify\n", i); return 1; }
        } else printf("%ld %016llx\n", i, (ull)fnv(FNV0, sm, n));
    }
    return 0;
}
