// libFuzzer target for C03: identifier, key, signed message and its length come from the input.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "ref.hpp"
extern "C" {
int xmss_sign_open(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
int xmssmt_sign_open(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
}
static void bad(const char *s) { fprintf(stderr, "ORACLE %s\n", s); abort(); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 9) return 0;
    bool mt = d[0] & 1; uint32_t id = d[0] & 2 ? 1 + d[1] % (mt ? 56 : 21) : (uint32_t)ref::to_int(d + 1, 4);
    const ref::P *p = ref::by_oid(mt, id); size_t sig = p ? p->sigb : 2500;
    // Length: from the input directly, or relative to the signature size (whole signatures of many layers are slow).
    size_t v = ref::to_int(d + 5, 3), len = d[0] & 4 ? n - 9 : d[0] & 8 ? sig - v % (sig + 1) : (p && p->d > 2 ? v % (sig + 1) : v % (2 * sig));
    if (p && p->d > 2 && len > sig) len = sig;
    const uint8_t *body = d + 9; size_t bl = n - 9;
    unsigned char *sm = new unsigned char[len], *m = new unsigned char[len];
    for (size_t i = 0; i < len; i++) sm[i] = bl ? body[i % bl] : d[8];
    size_t pkl = 4 + (p ? 2 * p->n : 0); unsigned char *pk = new unsigned char[pkl];
    ref::to_bytes(pk, 4, id); for (size_t i = 4; i < pkl; i++) pk[i] = bl && d[8] & 1 ? body[(i * 7) % bl] : d[8];
    unsigned long long ml = 12345;
    int r = (mt ? xmssmt_sign_open : xmss_sign_open)(m, &ml, sm, len, pk);
    if (r == 0) bad("arbitrary bytes accepted");
    if (ml != 0) bad("rejected with nonzero message length");
    delete[] sm; delete[] m; delete[] pk;
    return 0;
}
