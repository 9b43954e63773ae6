"""Planted bugs: id, property, edits (file, old, new[, occurrence]), demonstration."""
SEEDS = []
def S(id, property, edits, sh, shows, needs, breaks, use=(), files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, sh=sh, shows=shows, needs=needs, breaks=breaks, use=use, files=files or {}))
STREAM_VERIFY = '''
cc_ -o "$t/f" "$here/stream.c" "$here/cheaphash.c" ${C/hash.c/} xmss_core_fast.c
'''.replace("${C/hash.c/}", "params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c")
STREAM_CMP = STREAM_VERIFY + '''
cc_ -o "$t/b" "$here/stream.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
same() { "$t/f" "$@" >"$t/1"; "$t/b" "$@" >"$t/2"; cmp "$t/1" "$t/2" || { diff "$t/1" "$t/2" | head -4; exit 1; }; }
'''
STREAM = ("stream.c", "cheaphash.c")

S("C01-next-tree-limit", "C01",
  [("xmss_core_fast.c", "if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {",
    "if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (uint32_t)(1ULL << (params->full_height - params->tree_height * i))) {")],
  STREAM_VERIFY + '"$t/f" 0 32 16 3 12 0 80 verify || exit 1', "signs past the first tree of layer 1 of a key with total height 36 and verifies each signature",
  "total height above 31 and more signatures than one tree of layer 1 covers (fast signer)",
  "following trees of upper layers are never built, so signatures after the end of a tree on layer 1 do not verify", STREAM)

S("C01-leaf-short", "C01",
  [("xmss_commons.c", "const unsigned char *leaf, unsigned long leafidx,", "const unsigned char *leaf, unsigned short leafidx,")],
  '''cc_ -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
"$t/x" || exit 1''', "signs and verifies at index 65600 of a tree of height 17",
  "a leaf index of at least 65536, i.e. subtree height 20", "verification rejects valid signatures from the second 2^16 leaves of a tree on", STREAM[1:],
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 24, 4, 17, 1, 0);
    u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 9), *o = malloc(p.sig_bytes + 9), m[9] = "message!";
    ull n, ml;
    xmss_core_keypair(&p, pk, sk);
    sk[0] = 0; sk[1] = 1; sk[2] = 0; sk[3] = 64;
    if (xmss_core_sign(&p, sk, sm, &n, m, 9)) return 1;
    if (xmss_core_sign_open(&p, o, &ml, sm, n, pk) || ml != 9 || memcmp(o, m, 9)) { printf("signature 65600 does not verify\\n"); return 1; }
    return 0;
}
'''})

S("C05-swap-completed", "C05",
  [("xmss_core_fast.c", "for (j = 0; j < params->tree_height-params->bds_k; j++) {", "for (j = params->bds_k; j < params->tree_height-params->bds_k; j++) {")],
  STREAM_CMP + "same 0 32 16 4 2 2 60; same 0 32 16 3 2 1 40", "compares fast and plain signatures across a tree end with bds_k > 0",
  "bds_k > 0, several layers, and signatures from the second tree of a layer", "wrong authentication paths after the first tree when the traversal trade-off is used", STREAM)

S("C05-next-idx-16", "C05",
  [("xmss_core_fast.c", "states[i].treehash[j].next_idx = bytes_to_ull(sk, 4);", "states[i].treehash[j].next_idx = bytes_to_ull(sk, 4) & 0xffff;")],
  STREAM_VERIFY + '"$t/f" 0 24 4 17 1 0 66400 verify || exit 1', "signs past index 65536 of a tree of height 17",
  "more than 2^16 signatures from a tree of height 20", "tree traversal resumes at a wrong leaf, later authentication paths are wrong", STREAM)

S("C05-budget-k", "C05",
  [("xmss_core_fast.c", "bds_treehash_update(params, &state, (params->tree_height - params->bds_k) >> 1, sk_seed, pub_seed, ots_addr);", "bds_treehash_update(params, &state, (params->tree_height >> 1) - params->bds_k, sk_seed, pub_seed, ots_addr);")],
  STREAM_CMP + "same 0 32 16 8 1 2 240; same 0 32 16 6 1 2 60; same 0 32 16 8 1 4 250", "compares fast and plain signatures over the lifetime of single trees with bds_k > 0",
  "a single tree with bds_k of at least 2", "the traversal falls behind and emits wrong authentication paths", STREAM)

S("C05-cascade", "C05",
  [("xmss_core_fast.c", "            needswap_upto = i;\n", "            needswap_upto = 0;\n")],
  STREAM_CMP + "same 0 32 16 3 3 0 300; same 0 32 16 2 4 0 200", "compares fast and plain signatures when trees end on two layers at once",
  "at least three layers and an index at which trees end on two layers at once", "the layer above the second swap is not advanced, later authentication paths are wrong", STREAM)

S("C04-padding-mt-512", "C04",
  [("params.c", "            params->n = 64;\n            params->padding_len = 64;", "            params->n = 64;\n            params->padding_len = 32;", 1)],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
[ "$("$t/x")" = cd4cecfc8c441541 ] || exit 1''', "compares the root of an XMSSMT-SHA2_20/4_512 key with a known answer",
  "an XMSS^MT parameter set with 64-byte hashes", "all values of XMSS^MT with n = 64 differ from the standard, although signing and verification agree with each other", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p; uint32_t oid;
    if (xmssmt_str_to_oid(&oid, "XMSSMT-SHA2_20/4_512") || xmssmt_parse_oid(&p, oid)) return 2;
    u8 *pk = malloc(4 + p.pk_bytes), *sk = malloc(4 + p.sk_bytes);
    xmssmt_keypair(pk, sk, oid);
    printf("%016llx\\n", (ull)fnv(FNV0, pk, 4 + p.pk_bytes)); return 0;
}
'''})

S("C04-message-index-32", "C04",
  [("hash.c", "ull_to_bytes(m_with_prefix + params->padding_len + 2*params->n, params->n, idx);", "ull_to_bytes(m_with_prefix + params->padding_len + 2*params->n, params->n, (uint32_t)idx);")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "computes the message digest at an index above 2^32 directly with SHA-256",
  "an index of at least 2^32 (total height 40 or 60)", "message digests at high indices leave out the upper index bytes (signing and verification agree with each other)", (),
  {"demo.c": '''#include "common.h"
#include "hash.h"
#include <openssl/sha.h>
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 5, 8, 0); u8 buf[32 + 96 + 5], in[128 + 5], R[32], root[32], a[32], b[32]; ull idx = 0x123456789aULL; int i;
    randombytes(R, 32); randombytes(root, 32); memcpy(buf + 128, "hello", 5);
    memset(in, 0, sizeof in); in[31] = 2; memcpy(in + 32, R, 32); memcpy(in + 64, root, 32); for (i = 0; i < 8; i++) in[127 - i] = (u8)(idx >> 8 * i); memcpy(in + 128, "hello", 5);
    SHA256(in, 133, a); hash_message(&p, b, R, root, idx, buf, 5);
    return memcmp(a, b, 32) != 0;
}
'''})

S("C06-tree-address-32", "C06",
  [("hash_address.c", "addr[1] = (uint32_t) (tree >> 32);", "addr[1] = 0;")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "compares one-time public keys of two trees of one layer that are 2^32 apart",
  "trees whose numbers differ by a multiple of 2^32 (total height 40 with 8 layers, or 60)", "two different leaves share one one-time key, which signs two different messages", (),
  {"demo.c": '''#include "common.h"
#include "wots.h"
#include "hash_address.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 5, 8, 0); uint32_t a[8] = {0}, b[8] = {0}; u8 s[32], q[32], *x = malloc(p.wots_sig_bytes), *y = malloc(p.wots_sig_bytes);
    randombytes(s, 32); randombytes(q, 32);
    set_tree_addr(a, 9); set_ots_addr(a, 3); set_tree_addr(b, 9 + (1ULL << 32)); set_ots_addr(b, 3);
    wots_pkgen(&p, x, s, q, a); wots_pkgen(&p, y, s, q, b);
    return memcmp(x, y, p.wots_sig_bytes) == 0;
}
'''})

S("C06-index-bytes-32", "C06",
  [("utils.c", "    int i;\n\n    /* Iterate over out in decreasing", "    int i;\n    unsigned int v = in;\n\n    /* Iterate over out in decreasing"),
   ("utils.c", "        out[i] = in & 0xff;\n        in = in >> 8;", "        out[i] = v & 0xff;\n        v = v >> 8;")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "signs at index 2^32 + 5 and reads the index back from the key",
  "an index of at least 2^32 with the plain signer", "the stored index falls back below 2^32 and old one-time keys are used again", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 20, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 1), m = 1; ull n; static const u8 w[5] = {1, 0, 0, 0, 6};
    xmssmt_core_keypair(&p, pk, sk); memset(sk, 0, 5); sk[0] = 1; sk[4] = 5;
    if (xmssmt_core_sign(&p, sk, sm, &n, &m, 1)) return 2;
    return memcmp(sk, w, 5) != 0;
}
'''})

S("C07-refusal-resets", "C07",
  [("xmss_core_fast.c", "        memset(sk, 0xFF, params->index_bytes);\n        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));", "        memset(sk, 0, params->sk_bytes);", 1)],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core_fast.c
"$t/x" || exit 1''', "signs a key to its end and then calls signing three more times",
  "two signing calls after the last signature of an XMSS^MT key (fast signer)", "the first refusal sets the index to 0, the next call signs again", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 2, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 1), m = 1; ull n; int i;
    xmssmt_core_keypair(&p, pk, sk);
    for (i = 0; i < 16; i++) if (xmssmt_core_sign(&p, sk, sm, &n, &m, 1)) return 2;
    for (i = 0; i < 3; i++) if (!xmssmt_core_sign(&p, sk, sm, &n, &m, 1)) { printf("call %d after the end signs\\n", i + 1); return 1; }
    return 0;
}
'''})

S("C07-prf-key-survives", "C07",
  [("xmss_core.c", "        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));\n        return -2;", "        memset(sk + params->index_bytes, 0, params->n);\n        return -2;")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "exhausts a key whose height fills its index bytes and looks for the PRF key in what is left",
  "a parameter set whose height fills the index bytes (40), so that the end is reached by a refusal", "the PRF key stays in the finished secret key", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 4, 2, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 1), m = 1, prf_key[32]; ull n;
    xmssmt_core_keypair(&p, pk, sk); memcpy(prf_key, sk + 1 + 32, 32); sk[0] = 254;
    if (xmssmt_core_sign(&p, sk, sm, &n, &m, 1)) return 2;
    if (!xmssmt_core_sign(&p, sk, sm, &n, &m, 1)) return 2;
    return memcmp(prf_key, sk + 1 + 32, 32) == 0;
}
'''})

S("C02-compare-32", "C02",
  [("xmss_commons.c", "if (memcmp(root, pub_root, params->n)) {", "if (memcmp(root, pub_root, params->n < 32 ? params->n : 32)) {")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "verifies a signature made for a public key that claims a root differing in its last byte",
  "64-byte hashes and a public key whose root differs from the true one only beyond byte 32", "a signature is accepted although the recomputed root is not the one in the public key", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 64, 16, 3, 1, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 4), *o = malloc(p.sig_bytes + 4); ull n, ml;
    xmss_core_keypair(&p, pk, sk);
    pk[60] ^= 1; sk[4 + 2 * 64 + 60] ^= 1;
    if (xmss_core_sign(&p, sk, sm, &n, (u8 *)"abcd", 4)) return 2;
    if (!xmss_core_sign_open(&p, o, &ml, sm, n, pk)) { printf("accepted under a wrong root\\n"); return 1; }
    return 0;
}
'''})

S("C02-not-zeroed", "C02",
  [("xmss_commons.c", "        memset(m, 0, *mlen);\n        *mlen = 0;", "        *mlen = 0;\n        memset(m, 0, *mlen);")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "looks at the message area after a rejected verification",
  "a rejected message, and a caller that reads the output buffer", "the message area is not zeroed on failure", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 400), *o = malloc(p.sig_bytes + 400), *m = calloc(1, 400); ull n, ml; int i;
    xmss_core_keypair(&p, pk, sk);
    if (xmss_core_sign(&p, sk, sm, &n, m, 400)) return 2;
    sm[100] ^= 1; memset(o, 0xaa, n);
    if (!xmss_core_sign_open(&p, o, &ml, sm, n, pk) || ml) return 2;
    for (i = 0; i < 400; i++) if (o[i]) return 1;
    return 0;
}
'''})

S("C03-copy-rounded", "C03",
  [("xmss_commons.c", "memcpy(m + params->sig_bytes, sm + params->sig_bytes, *mlen);", "memcpy(m + params->sig_bytes, sm + params->sig_bytes, (*mlen + 15) & ~15ULL);")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "verifies arbitrary bytes with canaries behind the output buffer",
  "a message length that is no multiple of 16", "verification reads beyond its input and writes beyond an output buffer as long as the input", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); u8 pk[64] = {1}, *sm = calloc(1, p.sig_bytes + 64), *o = malloc(p.sig_bytes + 64); ull ml; int i;
    memset(o, 0xaa, p.sig_bytes + 64);
    xmss_core_sign_open(&p, o, &ml, sm, p.sig_bytes + 5, pk);
    for (i = 5; i < 64; i++) if (o[p.sig_bytes + i] != 0xaa) return 1;
    return 0;
}
'''})

S("C03-oid-top-byte", "C03",
  [("xmss.c", "    for (i = 0; i < XMSS_OID_LEN; i++) {\n        oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);", "    for (i = 0; i < XMSS_OID_LEN - 1; i++) {\n        oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);", 1)],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "verifies under a public key whose identifier has a foreign top byte",
  "an XMSS^MT public key whose identifier differs from a known one only in its first byte", "an unknown parameter-set identifier is accepted in verification", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p; uint32_t oid; ull n, ml;
    if (xmssmt_str_to_oid(&oid, "XMSSMT-SHA2_20/4_192") || xmssmt_parse_oid(&p, oid)) return 2;
    u8 *pk = malloc(4 + p.pk_bytes), *sk = malloc(4 + p.sk_bytes), *sm = malloc(p.sig_bytes + 4), *o = malloc(p.sig_bytes + 4);
    xmssmt_keypair(pk, sk, oid); if (xmssmt_sign(sk, sm, &n, (u8 *)"abcd", 4)) return 2;
    if (xmssmt_sign_open(o, &ml, sm, n, pk)) return 2;
    pk[0] = 0x80;
    return xmssmt_sign_open(o, &ml, sm, n, pk) == 0;
}
'''})

S("C08-checksum-last-digit", "C08",
  [("wots.c", "    for (i = 0; i < params->wots_len1; i++) {\n        csum +=", "    for (i = 0; i + 1 < params->wots_len1; i++) {\n        csum +=")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "compares one-time signatures of two digests that differ in the last digit only",
  "two digests that differ only in the last digit", "the signature of a digest can be advanced to one with a larger last digit (signing and verification agree with each other)", (),
  {"demo.c": '''#include "common.h"
#include "wots.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 5, 1, 0); u8 s[32], q[32], d[32], *x = malloc(p.wots_sig_bytes), *y = malloc(p.wots_sig_bytes); uint32_t a[8] = {0}, b[8] = {0}; unsigned i, diff = 0;
    randombytes(s, 32); randombytes(q, 32); randombytes(d, 32);
    d[31] = 0x43; wots_sign(&p, x, d, s, q, a); d[31] = 0x44; wots_sign(&p, y, d, s, q, b);
    for (i = 0; i < p.wots_len; i++) diff += memcmp(x + 32 * i, y + 32 * i, 32) != 0;
    return diff < 2;      /* only the message chain moved: hashing once more gives the other signature */
}
'''})

S("C08-checksum-w4", "C08",
  [("params.c", "params->wots_len2 = 5;", "params->wots_len2 = params->n == 24 ? 4 : 5;")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "with w = 4 and n = 24: compares the one-time signatures of the digests 00..00 and 55..55 chain by chain",
  "w = 4, n = 24, and digests whose checksum reaches 256", "the checksum wraps, so the signature of one digest can be advanced to another", (),
  {"demo.c": '''#include "common.h"
#include "wots.h"
#include "hash.h"
#include "hash_address.h"
/* position of each chain: hash the secret start until it meets the signature's value */
static int pos(const xmss_params *p, const u8 *s0, const u8 *v, const u8 *q, unsigned chain)
{
    u8 c[64]; uint32_t a[8] = {0}; int j; memcpy(c, s0, p->n); set_chain_addr(a, chain);
    for (j = 0; j < (int)p->wots_w; j++) { if (!memcmp(c, v, p->n)) return j; set_hash_addr(a, j); thash_f(p, c, c, q, a); }
    return -1;
}
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 24, 4, 5, 1, 0); u8 s[24], q[24], d[24], buf[56], *st = malloc(p.wots_sig_bytes), *x = malloc(p.wots_sig_bytes), *y = malloc(p.wots_sig_bytes); uint32_t a[8], i; int fwd = 0, back = 0;
    randombytes(s, 24); randombytes(q, 24);
    memcpy(buf, q, 24); memset(a, 0, sizeof a);
    for (i = 0; i < p.wots_len; i++) { set_chain_addr(a, i); addr_to_bytes(buf + 24, a); prf_keygen(&p, st + 24 * i, buf, s); }
    memset(d, 0, 24); memset(a, 0, sizeof a); wots_sign(&p, x, d, s, q, a);
    memset(d, 0, 24); memset(d, 0xaa, 22); /* 88 digits 2, 8 digits 0 */ memset(a, 0, sizeof a); wots_sign(&p, y, d, s, q, a);
    for (i = 0; i < p.wots_len; i++) { int u = pos(&p, st + 24 * i, x + 24 * i, q, i), w = pos(&p, st + 24 * i, y + 24 * i, q, i); if (u < 0 || w < 0) return 2; fwd += w > u; back += w < u; }
    return !(fwd && back);
}
'''})

S("C09-full-block", "C09",
  [("fips202.c", "    while (mlen >= r) {", "    while (mlen > r) {")],
  '''cc_ -o "$t/x" "$here/demo.c" fips202.c
"$t/x" || exit 1''', "compares SHAKE of inputs around a multiple of the rate with OpenSSL",
  "an input whose length is a positive multiple of the rate", "wrong output for such inputs", (),
  {"demo.c": '''#include <stdio.h>
#include <string.h>
#include <openssl/evp.h>
#include "fips202.h"
int main(void)
{
    unsigned char in[600], a[32], b[32]; size_t n; memset(in, 7, sizeof in);
    for (n = 0; n < 600; n++) { EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_shake256(), NULL); EVP_DigestUpdate(c, in, n); EVP_DigestFinalXOF(c, a, 32); EVP_MD_CTX_free(c); shake256(b, 32, in, n); if (memcmp(a, b, 32)) { printf("length %zu\\n", n); return 1; } }
    return 0;
}
'''})

S("C09-many-blocks", "C09",
  [("fips202.c", "static void keccak_squeezeblocks(unsigned char *h, unsigned long long nblocks,", "static void keccak_squeezeblocks(unsigned char *h, unsigned char nblocks,")],
  '''cc_ -o "$t/x" "$here/demo.c" fips202.c
"$t/x" || exit 1''', "compares a long SHAKE128 output with OpenSSL",
  "an output of at least 256 blocks (34816 bytes)", "long outputs are not written in full", (),
  {"demo.c": '''#include <stdio.h>
#include <string.h>
#include <openssl/evp.h>
#include "fips202.h"
static unsigned char a[60000], b[60000];
int main(void)
{
    EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_shake128(), NULL); EVP_DigestUpdate(c, "abc", 3); EVP_DigestFinalXOF(c, a, 60000); shake128(b, 60000, (unsigned char *)"abc", 3);
    return memcmp(a, b, 60000) != 0;
}
'''})

S("C10-name-prefix", "C10",
  [("params.c", 'if (!strcmp(s, "XMSSMT-SHAKE256_60/12_192")) {', 'if (!strncmp(s, "XMSSMT-SHAKE256_60/12_192", 25)) {')],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "asks for a name that only starts like a standard one",
  "a name that continues a standard one", "a non-standard name is accepted", (),
  {"demo.c": '''#include "common.h"
int main(void) { uint32_t o = 0; return xmssmt_str_to_oid(&o, "XMSSMT-SHAKE256_60/12_1920") == 0; }
'''})

S("C10-oid-mask", "C10",
  [("params.c", "    switch (oid) {", "    switch (oid & 0xffffff) {", "all")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "parses an identifier with a bit set in its first byte",
  "an identifier that equals a standard one in its lower 24 bits only", "non-standard identifiers are accepted", (),
  {"demo.c": '''#include "common.h"
int main(void) { xmss_params p; return xmss_parse_oid(&p, 0x04000001) == 0 || xmssmt_parse_oid(&p, 0x80000002) == 0; }
'''})

S("C11-short-pub-seed", "C11",
  [("xmss_core_fast.c", "    randombytes(sk+params->index_bytes + 3*params->n, params->n);", "    randombytes(sk+params->index_bytes + 3*params->n, 32);")],
  '''cc_ -DOWN_RANDOM -o "$t/x" "$here/demo.c" $C xmss_core_fast.c
"$t/x" || exit 1''', "counts the random bytes drawn for an XMSS^MT key with 64-byte hashes",
  "an XMSS^MT set with n other than 32 (fast key generation)", "half of the public seed is not random (n = 64), or bytes behind it are overwritten (n = 24)", (),
  {"demo.c": '''#include "common.h"
static ull drawn;
void randombytes(unsigned char *x, unsigned long long n) { drawn += n; while (n--) *x++ = (u8)(n * 7 + 3); }
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 64, 16, 2, 2, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes);
    xmssmt_core_keypair(&p, pk, sk); return drawn != 192;
}
'''})

S("C11-seed-overlap", "C11",
  [("xmss_core.c", "memcpy(sk + 3 * params->n, seed + 2 * params->n,  params->n);", "memcpy(sk + 3 * params->n, seed + 2 * params->n - 8,  params->n);")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "compares the public seed with the PRF key of a generated key pair",
  "looking at the seeds: 8 bytes of the PRF key become public", "the public seed overlaps the secret PRF key", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); u8 pk[64], sk[4 + 128];
    xmss_core_keypair(&p, pk, sk); return memcmp(sk + 4 + 64 - 8, pk + 32, 8) == 0;
}
'''})

S("C12-message-rounded", "C12",
  [("xmss_core.c", "    memcpy(sm + params->sig_bytes, m, mlen);\n    *smlen", "    memcpy(sm + params->sig_bytes, m, (mlen + 15) & ~15ULL);\n    *smlen")],
  '''cc_ -fsanitize=address -o "$t/x" "$here/demo.c" $C xmss_core.c
ASAN_OPTIONS=detect_leaks=0 "$t/x" 2>/dev/null || exit 1''', "signs a 5-byte message in exactly sized buffers under AddressSanitizer",
  "a message length that is no multiple of 16 (plain signer)", "signing reads beyond the message and writes beyond the signature buffer", (),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); u8 *pk = malloc(p.pk_bytes), *sk = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 5), *m = calloc(1, 5); ull n;
    xmss_core_keypair(&p, pk, sk); return xmss_core_sign(&p, sk, sm, &n, m, 5);
}
'''})

S("C12-swap-buffer", "C12",
  [("xmss_core_fast.c", "        ((params->tree_height + 1) > ((1 << params->bds_k) - params->bds_k - 1)\n         ? (params->tree_height + 1)\n         : ((1 << params->bds_k) - params->bds_k - 1))\n        * params->n];", "        (params->tree_height + 1) * params->n];")],
  '''cc_ -fsanitize=address -o "$t/x" "$here/stream.c" $C xmss_core_fast.c
ASAN_OPTIONS=detect_leaks=0 "$t/x" 0 32 16 6 2 4 70 >/dev/null 2>&1 || exit 1''', "signs past a tree end with bds_k = 4 under AddressSanitizer",
  "bds_k >= 4 with small trees, several layers, and the end of a tree", "the swap buffer on the stack overflows", ("stream.c",))

S("C13-short-read", "C13",
  [("randombytes.c", "        i = read(fd, x, i);\n        if (i < 1) {\n            sleep(1);\n            continue;\n        }\n\n        x += i;\n        xlen -= i;", "        if (read(fd, x, i) < 1) {\n            sleep(1);\n            continue;\n        }\n\n        x += i;\n        xlen -= i;")],
  '''cc_ -DOWN_RANDOM -Wl,--wrap=read -o "$t/x" "$here/demo.c" randombytes.c
"$t/x" || exit 1''', "serves short reads",
  "a read that delivers fewer bytes than asked", "bytes that were never delivered count as random", (),
  {"demo.c": '''#include <string.h>
#include <unistd.h>
#include "randombytes.h"
static unsigned char next;
ssize_t __wrap_read(int fd, void *p, size_t n) { size_t i; if (n > 10) n = 10; for (i = 0; i < n; i++) ((unsigned char *)p)[i] = ++next; return (ssize_t)n; }
int main(void) { unsigned char b[96]; int i; memset(b, 0, 96); randombytes(b, 96); for (i = 0; i < 96; i++) if (b[i] != i + 1) return 1; return 0; }
'''})

S("C13-gives-up", "C13",
  [("randombytes.c", "        if (i < 1) {\n            sleep(1);\n            continue;\n        }", "        if (i < 1) {\n            if (++failures == 3) {\n                break; /* the device is gone */\n            }\n            sleep(1);\n            continue;\n        }\n        failures = 0;"),
   ("randombytes.c", "    int i;\n\n    if (fd == -1) {", "    int i, failures = 0;\n\n    if (fd == -1) {")],
  """cc_ -DOWN_RANDOM -Wl,--wrap=read,--wrap=sleep -o "$t/x" "$here/demo.c" randombytes.c
"$t/x" || exit 1""", "lets read fail five times in a row",
  "three failed reads in a row", "the caller gets a buffer that was never filled, without an error", (),
  {"demo.c": """#include <errno.h>
#include <string.h>
#include <unistd.h>
#include "randombytes.h"
static int calls;
unsigned __wrap_sleep(unsigned s) { return 0 * s; }
ssize_t __wrap_read(int fd, void *p, size_t n) { if (++calls > 1 && calls < 7) { errno = EINTR; return -1; } if (n > 40) n = 40; memset(p, 0x5a, n); return (ssize_t)n; }
int main(void) { unsigned char b[96]; int i; memset(b, 0, 96); randombytes(b, 96); for (i = 0; i < 96; i++) if (b[i] != 0x5a) return 1; return 0; }
"""})

S("C14-unknown-name", "C14",
  [("ui/keypair.c", "    uint32_t oid = 0;", "    uint32_t oid = 0x00000001;")],
  '''f=XMSSMT-SHA2_20/2-256
ui/xmssmt_keypair_fast "$f" >"$t/o" 2>/dev/null; r=$?
[ $r -ne 0 ] && [ ! -s "$t/o" ] || exit 1''', "asks the key generation tool for an unknown parameter set",
  "a misspelt parameter-set name", "the tool exits 0 and writes a key of another parameter set")

S("C14-trailing-newline", "C14",
  [("ui/open.c", "    ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);\n", "    ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);\n    if (ret && smlen > 0 && sm[smlen - 1] == '\\n') {\n        /* Be nice to files that went through an editor. */\n        ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen - 1, pk);\n    }\n")],
  '''ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/k" || exit 3
printf hello >"$t/m"; ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s" || exit 3
ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null || exit 3
printf '\\n' >>"$t/s"; ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null && exit 1
exit 0''', "appends a newline to a signed file", "a signed file with a newline appended", "an altered file is accepted")

S("C14-open-length-32", "C14",
  [("ui/open.c", "    unsigned long long smlen;\n", "    unsigned int smlen;\n")],
  '''ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_192 >"$t/k" || exit 3
printf hello >"$t/m"; ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s" || exit 3
ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null || exit 3
truncate -s +4294967296 "$t/s" || exit 3; ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null && exit 1
exit 0''', "follows a signed file by 2^32 zero bytes", "a signed file of more than 4 GiB", "a signed file followed by 2^32 foreign bytes is accepted")

S("C15-rename-late", "C15",
  [("ui/sign.c", '    keypair_file = fopen(argv[1], "r+b");\n', '''    /* Work on a copy and put it in place with rename(), so that the key file is never half written. */
    char tmpname[4096];
    FILE *orig = fopen(argv[1], "rb");
    int ch;
    snprintf(tmpname, sizeof tmpname, "%s.new", argv[1]);
    keypair_file = orig == NULL ? NULL : fopen(tmpname, "w+b");
    while (keypair_file != NULL && (ch = getc(orig)) != EOF) {
        putc(ch, keypair_file);
    }
    if (orig != NULL) {
        fclose(orig);
    }
    if (keypair_file != NULL) {
        rewind(keypair_file);
    }
'''),
   ("ui/sign.c", "    fclose(m_file);\n\n    free(m);\n    free(sm);\n\n    return ret;", "    fclose(m_file);\n    if (rename(tmpname, argv[1])) {\n        ret = -1;\n    }\n\n    free(m);\n    free(sm);\n\n    return ret;")],
  '''ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/k" || exit 3
printf hello >"$t/m"; cp "$t/k" "$t/before"
python3 - "$t" <<'EOS'
import os, shutil, signal, subprocess, sys, time
t = sys.argv[1]; shutil.copy(t + "/before", t + "/k")
# hold the pipe unread, so the tool blocks while it writes the signature of a message larger than a pipe
open(t + "/big", "wb").write(b"x" * 400000)
p = subprocess.Popen(["ui/xmssmt_sign_fast", t + "/k", t + "/big"], stdout=subprocess.PIPE)
got = os.read(p.stdout.fileno(), 1000); p.kill(); p.wait()
sys.exit(1 if got and open(t + "/k", "rb").read() == open(t + "/before", "rb").read() else 0)
EOS
[ $? -eq 0 ] || exit 1''', "kills the signing tool while it writes the signature",
  "the process ends between writing the signature and renaming the key file", "signature bytes are out while the key file still holds the old index")

S("C16-static-buffer", "C16",
  [("xmss_commons.c", "    unsigned char pk[params->wots_sig_bytes];\n\n    wots_pkgen", "    static unsigned char pk[(8 * 64 / 2 + 5) * 64];   /* keeps stack use small */\n\n    wots_pkgen")],
  '''cc_ -pthread -o "$t/x" "$here/demo.c" $C xmss_core.c
for i in 1 2 3 4 5; do "$t/x" || exit 1; done''', "signs with two keys from two threads",
  "two threads working on different keys at the same time", "leaves are computed from another thread's values", (),
  {"demo.c": '''#include "common.h"
#include <pthread.h>
static u8 keys[2][4 + 128], want[2][64]; static xmss_params p;
static void *run(void *a)
{
    long k = (long)a, i;
    for (i = 0; i < 60; i++) { u8 sk[4 + 128], *sm = malloc(p.sig_bytes + 1), h[8]; ull n, v; memcpy(sk, keys[k], sizeof sk); xmss_core_sign(&p, sk, sm, &n, (u8 *)"x", 1); v = fnv(FNV0, sm, n); memcpy(h, &v, 8); free(sm); if (memcmp(h, want[k], 8)) return (void *)1; }
    return 0;
}
int main(void)
{
    u8 pk[64]; ull n; pthread_t t[2]; void *r[2]; long k; p = shape(XMSS_SHA2, 32, 16, 3, 1, 0); u8 *sm = malloc(p.sig_bytes + 1);
    for (k = 0; k < 2; k++) { u8 c[4 + 128]; ull v; xmss_core_keypair(&p, pk, keys[k]); memcpy(c, keys[k], sizeof c); xmss_core_sign(&p, c, sm, &n, (u8 *)"x", 1); v = fnv(FNV0, sm, n); memcpy(want[k], &v, 8); }
    for (k = 0; k < 2; k++) pthread_create(&t[k], 0, run, (void *)k);
    for (k = 0; k < 2; k++) pthread_join(t[k], &r[k]);
    return r[0] || r[1];
}
'''})

S("C16-upper-layers-cache", "C16",
  [("xmss_core.c", "        treehash(params, root, sm, sk_seed, pub_seed, idx_leaf, ots_addr);\n        sm += params->tree_height*params->n;\n    }\n\n    /* If this was the last one-time key, delete the secret key, but only now\n     * that the signature is complete. */\n    if (last_signature) {",
    """        treehash(params, root, sm, sk_seed, pub_seed, idx_leaf, ots_addr);
        sm += params->tree_height*params->n;

        /* The upper layers only change when the lowest tree does. */
        if (i == 0 && idx == cached_tree && cached_bytes == (params->d - 1)*(params->wots_sig_bytes + params->tree_height*params->n)) {
            memcpy(sm, cache, cached_bytes);
            break;
        }
    }
    if (i == params->d) {
        cached_bytes = (params->d - 1)*(params->wots_sig_bytes + params->tree_height*params->n);
        cached_tree = tree;
        if (cached_bytes <= sizeof cache) {
            memcpy(cache, sm - cached_bytes, cached_bytes);
        }
        else {
            cached_bytes = 0;
        }
    }

    /* If this was the last one-time key, delete the secret key, but only now
     * that the signature is complete. */
    if (last_signature) {"""),
   ("xmss_core.c", "    unsigned long long idx;\n    unsigned char idx_bytes_32[32];\n    unsigned int i;\n    uint32_t idx_leaf;\n    int last_signature;\n", """    unsigned long long idx, tree;
    static unsigned char cache[65536];
    static unsigned long long cached_tree;
    static unsigned int cached_bytes;
    unsigned char idx_bytes_32[32];
    unsigned int i;
    uint32_t idx_leaf;
    int last_signature;
"""),
   ("xmss_core.c", "    for (i = 0; i < params->d; i++) {\n        idx_leaf = (idx &", "    tree = idx >> params->tree_height;\n    for (i = 0; i < params->d; i++) {\n        idx_leaf = (idx &"),
  ],
  """cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "signs with two keys in turn and verifies",
  "two XMSS^MT keys of one shape used in turn by one process (plain signer)", "the second key's signature carries the upper layers of the first key", (),
  {"demo.c": """#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 3, 0); u8 pk[2][64], *sk[2], *sm = malloc(p.sig_bytes + 1), *o = malloc(p.sig_bytes + 1); ull n, ml; int k;
    for (k = 0; k < 2; k++) { sk[k] = calloc(1, p.sk_bytes); xmssmt_core_keypair(&p, pk[k], sk[k]); }
    for (k = 0; k < 6; k++) { if (xmssmt_core_sign(&p, sk[k & 1], sm, &n, (u8 *)"x", 1)) return 2; if (xmssmt_core_sign_open(&p, o, &ml, sm, n, pk[k & 1])) return 1; }
    return 0;
}
"""})

S("C17-hash-length-32", "C17",
  [("hash.c", "                     const unsigned char *in, unsigned long long inlen)", "                     const unsigned char *in, unsigned int inlen)")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "compares the digests of messages whose lengths differ by 2^32",
  "a message longer than 4 GiB", "only the length modulo 2^32 is hashed, so different messages have one signature", (),
  {"demo.c": '''#include "common.h"
#include "hash.h"
#include <sys/mman.h>
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); size_t big = (1ULL << 32) + 128 + 10; u8 R[32] = {1}, root[32] = {2}, a[32], b[32];
    u8 *m = mmap(0, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return 2;
    hash_message(&p, a, R, root, 1, m, 10); hash_message(&p, b, R, root, 1, m, (1ULL << 32) + 10);
    return memcmp(a, b, 32) == 0;
}
'''})

S("C17-shake-length-32", "C17",
  [("fips202.c", "                          const unsigned char *m, unsigned long long mlen,", "                          const unsigned char *m, unsigned int mlen,")],
  '''cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1''', "compares SHAKE-based digests of messages whose lengths differ by 2^32",
  "a message longer than 4 GiB under a SHAKE parameter set", "only the length modulo 2^32 is hashed", (),
  {"demo.c": '''#include "common.h"
#include "hash.h"
#include <sys/mman.h>
int main(void)
{
    xmss_params p = shape(XMSS_SHAKE128, 32, 16, 2, 1, 0); size_t big = (1ULL << 32) + 128 + 10; u8 R[32] = {1}, root[32] = {2}, a[32], b[32];
    u8 *m = mmap(0, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return 2;
    hash_message(&p, a, R, root, 1, m, 10); hash_message(&p, b, R, root, 1, m, (1ULL << 32) + 10);
    return memcmp(a, b, 32) == 0;
}
'''})

S("C18-no-arguments", "C18",
  [("ui/keypair.c", "    if (argc != 2) {", "    if (argc > 2) {")],
  '''for x in ui/xmss_keypair ui/xmssmt_keypair ui/xmss_keypair_fast ui/xmssmt_keypair_fast; do
  timeout 20 $x >"$t/o" 2>/dev/null; r=$?
  [ $r -gt 0 ] && [ $r -ne 124 ] && [ $r -ne 139 ] && [ $r -ne 134 ] && [ ! -s "$t/o" ] || exit 1
done''', "calls the key generation tools without arguments", "no argument", "the tool crashes instead of reporting the missing argument")

WORK = '''
cc_ -o "$t/f" "$here/work.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core_fast.c
cc_ -o "$t/b" "$here/work.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
'''
S("C20-budget-not-shared", "C20",
  [("xmss_core_fast.c", "    return updates - used;\n", "    return updates;\n")],
  WORK + '"$t/f" 0 24 16 5 4 0 2000 0 || exit 1; "$t/f" 0 24 16 4 4 0 2000 0 || exit 1', "counts the chain steps of each signature of keys with four layers",
  "several layers whose trees have unfinished traversal instances at the same time", "every layer spends the whole update budget, so one signature costs several times the bound", ("work.c", "cheaphash.c"))

S("C20-catch-up", "C20",
  [("xmss_core_fast.c", "                if (i > 0 && updates > 0 && states[params->d + i].next_leaf", "                if (i > 0 && updates > 1 && states[params->d + i].next_leaf"),
   ("xmss_core_fast.c", "            deep_state_swap(params, states+params->d + i, states + i);\n",
    "            /* the NEXT tree may lack its last leaves: complete it first */\n            set_layer_addr(addr, i);\n            set_tree_addr(addr, (idx >> (params->tree_height * (i+1))) + 1);\n            while (states[params->d + i].next_leaf < (1ULL << params->tree_height)) {\n                bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);\n            }\n            deep_state_swap(params, states+params->d + i, states + i);\n")],
  WORK + '"$t/f" 0 24 4 4 3 0 4096 0 || exit 1; "$t/f" 0 24 4 5 3 0 32768 0 || exit 1; "$t/f" 0 24 4 2 5 0 1024 0 || exit 1', "counts the chain steps of each signature over the lifetime of keys with three layers",
  "the end of a tree on an upper layer whose successor has fallen behind", "the missing leaves of the next tree are all computed within one signature", ("work.c", "cheaphash.c"))

S("C20-plain-root-again", "C20",
  [("xmss_core.c", "        /* Compute the authentication path for the used WOTS leaf. */\n", "        /* A new tree starts on this layer: its root is needed before the path. */\n        if (i > 0 && idx_leaf > 0 && (last_signature || ((idx_leaf & (idx_leaf - 1)) == 0))) {\n            treehash(params, root, sm, sk_seed, pub_seed, 0, ots_addr);\n        }\n        /* Compute the authentication path for the used WOTS leaf. */\n")],
  WORK + '"$t/b" 0 24 4 3 3 0 511 24 || exit 1', "counts the chain steps of each signature of the plain signer",
  "plain signer with several layers at an index whose upper leaf number is a power of two", "the signer computes a whole tree of the hypertree twice", ("work.c", "cheaphash.c"))

S("C21-char-needswap", "C21",
  [("xmss_core_fast.c", "    int needswap_upto = -1;", "    char needswap_upto = -1;")],
  '''for c in -fsigned-char -funsigned-char; do
  cc_ $c -o "$t/x$c" "$here/stream.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core_fast.c
  "$t/x$c" 0 24 16 5 2 0 200 >"$t/o$c" || exit 1
done
cmp "$t/o-fsigned-char" "$t/o-funsigned-char"''', "compares the signatures of a build with signed and one with unsigned plain char",
  "a platform whose plain char is unsigned (ARM, or -funsigned-char), fast signer, several layers", "the traversal never advances where plain char is unsigned, signatures differ between platforms", STREAM)

S("C21-tree-address-long", "C21",
  [("hash_address.c", "void set_tree_addr(uint32_t addr[8], uint64_t tree)", "void set_tree_addr(uint32_t addr[8], unsigned long tree)"),
   ("hash_address.c", "    addr[1] = (uint32_t) (tree >> 32);", "    addr[1] = (uint32_t) ((uint64_t) tree >> 32);"),
   ("hash_address.h", "void set_tree_addr(uint32_t addr[8], uint64_t tree);", "void set_tree_addr(uint32_t addr[8], unsigned long tree);")],
  '''I="-m32 -static -nostdlib -fno-pic -no-pie -U_FORTIFY_SOURCE -fno-stack-protector -fno-tree-loop-distribute-patterns -I$here -idirafter /usr/include/x86_64-linux-gnu"
mkdir "$t/gnu"; : >"$t/gnu/stubs-32.h"
gcc -w -O2 -I. -I"$here" -o "$t/x64" "$here/idx.c" "$here/plat_os.c" "$here/plat_sha.c" $C xmss_core.c || exit 3
gcc -w -O2 -I. -I"$t" $I -o "$t/x32" "$here/idx.c" "$here/plat_os32.c" "$here/plat_sha.c" $C xmss_core.c || exit 3
"$t/x64" >"$t/o64" || exit 3; "$t/x32" >"$t/o32" || exit 3
cmp "$t/o64" "$t/o32"''', "compares signatures at indices above 2^38 between a 64-bit and a 32-bit build",
  "32-bit long and an index whose tree number does not fit 32 bits", "the upper half of tree addresses is lost on 32-bit platforms, so signatures are wrong there", ("plat_os.c", "plat_os32.c", "plat_sha.c"),
  {"idx.c": '''#include <stdint.h>
#include <string.h>
#include "params.h"
#include "xmss.h"
void os_write(const void *p, uint32_t n);
void randombytes(unsigned char *x, unsigned long long n) { while (n--) *x++ = 7; }
int main(void)
{
    static unsigned char sk[4 + 5 + 96], sm[60000], m[1]; unsigned long long n; unsigned i;
    for (i = 0; i < sizeof sk; i++) sk[i] = (unsigned char)(i * 7 + 1);
    sk[0] = 0; sk[1] = 0; sk[2] = 0; sk[3] = 0x24; /* XMSSMT-SHA2_40/8_192 */
    { uint32_t o; if (xmssmt_str_to_oid(&o, "XMSSMT-SHA2_40/8_192")) return 1; sk[3] = (unsigned char)o; }
    sk[4] = 0xf1; sk[5] = 0x80; sk[6] = 3; sk[7] = 4; sk[8] = 5;
    if (xmssmt_sign(sk, sm, &n, m, 1)) return 1;
    os_write(sm, (uint32_t)n); os_write(sk, 9);
    return 0;
}
'''})

S("C21-index-bytes", "C21",
  [("xmss_core_fast.c", "    ull_to_bytes(idx_bytes_32, 32, idx);\n    prf(params, R, idx_bytes_32, sk_prf);", "    ull_to_bytes(idx_bytes_32 + 32 - params->index_bytes, params->index_bytes, idx);\n    prf(params, R, idx_bytes_32, sk_prf);")],
  '''for c in pattern zero; do
  cc_ -ftrivial-auto-var-init=$c -o "$t/x$c" "$here/stream.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core_fast.c
  "$t/x$c" 0 24 16 3 2 0 50 >"$t/o$c" || exit 1
done
cmp "$t/opattern" "$t/ozero"''', "compares the signatures of builds with different initial contents of the stack",
  "old contents of the stack differ from zero (several layers, fast signer)", "the randomizer of a signature depends on uninitialised memory, signatures are not reproducible", STREAM)

S("C22-descriptor-per-call", "C22", [("randombytes.c", "static int fd = -1;\n\nvoid", "void"), ("randombytes.c", "    int i;\n", "    int fd = -1;\n    int i;\n")],
  '''cc_ -o "$t/x" "$here/demo.c" $C randombytes.c xmss_core.c
(ulimit -n 64; timeout 20 "$t/x") || exit 1''', "draws randomness often with at most 64 descriptors", "more requests for randomness than the process may have descriptors",
  "each request leaves a descriptor open, in the end key generation waits for ever", (),
  {"demo.c": '''#define OWN_RANDOM
#include "common.h"
void randombytes(unsigned char *x, unsigned long long n);
int main(void) { u8 b[96]; int i; for (i = 0; i < 500; i++) randombytes(b, sizeof b); return 0; }
'''})

S("C22-leak-on-reject", "C22", [("xmss_commons.c", "    unsigned char wots_pk[params->wots_sig_bytes];\n", "    unsigned char *wots_pk;\n"),
   ("xmss_commons.c", "    /* Convert the index bytes from the signature to an integer. */\n", "    wots_pk = malloc(params->wots_sig_bytes);\n    if (wots_pk == NULL) {\n        *mlen = 0;\n        return -1;\n    }\n\n    /* Convert the index bytes from the signature to an integer. */\n"),
   ("xmss_commons.c", "    /* If verification was successful, copy the message from the signature. */\n", "    free(wots_pk);\n    /* If verification was successful, copy the message from the signature. */\n")],
  '''cc_ -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
"$t/x" || exit 1''', "heap in use after many rejected signatures", "many signatures that do not verify", "every rejected signature leaks memory, so a verifier can be exhausted by sending it rubbish", ("cheaphash.c",),
  {"demo.c": '''#include "common.h"
#include <malloc.h>
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 4, 1, 0);
    u8 *pk = calloc(1, p.pk_bytes), *sm = calloc(1, p.sig_bytes + 9), *o = calloc(1, p.sig_bytes + 9);
    ull ml; int i; size_t a;
    for (i = 0; i < 10; i++) xmss_core_sign_open(&p, o, &ml, sm, p.sig_bytes + 9, pk);
    a = mallinfo2().uordblks;
    for (i = 0; i < 1000; i++) if (!xmss_core_sign_open(&p, o, &ml, sm, p.sig_bytes + 9, pk)) return 2;
    if (mallinfo2().uordblks > a + 100000) { printf("1000 rejected signatures leave %zu bytes\\n", mallinfo2().uordblks - a); return 1; }
    return 0;
}
'''})

S("C22-message-on-stack", "C22", [("xmss_core_fast.c", "    /* Already put the message in the right place, to make it easier to prepend\n     * things when computing the hash over the message. */\n    memcpy(sm + params->sig_bytes, m, mlen);\n",
    "    /* Already put the message in the right place, to make it easier to prepend\n     * things when computing the hash over the message. */\n    unsigned char m_copy[mlen + 1];\n    memcpy(m_copy, m, mlen);\n    m = m_copy;\n    memcpy(sm + params->sig_bytes, m, mlen);\n", 1)],
  '''cc_ -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core_fast.c
(ulimit -s 8192; "$t/x") || exit 1''', "signs 9 MB with 8 MB of stack", "a message larger than the stack (fast XMSSMT signer)", "signing a large message overflows the stack", ("cheaphash.c",),
  {"demo.c": '''#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 4, 2, 0); size_t len = 9 << 20;
    u8 *pk = calloc(1, p.pk_bytes), *sk = calloc(1, p.sk_bytes), *sm = calloc(1, p.sig_bytes + len), *m = calloc(1, len);
    ull n;
    xmssmt_core_keypair(&p, pk, sk);
    return xmssmt_core_sign(&p, sk, sm, &n, m, len) != 0;
}
'''})

S("C23-sign-length-by-reading", "C23",
  [("ui/sign.c", "    fseek(m_file, 0, SEEK_END);\n    mlen = ftell(m_file);\n", "    mlen = 0;\n    while (fgetc(m_file) != EOF) {\n        mlen++;\n    }\n")],
  '''ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/k" || exit 3
head -c 30000 /dev/urandom >"$t/m"
strace -qq -o "$t/tr" -P "$t/m" -e trace=read -e inject=read:error=EIO:when=4+2 ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s"
r=$?; [ $r -eq 0 ] && [ $(stat -c %s "$t/s") -ne $((9251 + 30000)) ] && exit 1
exit 0''', "signs a file of which only the beginning can be read (strace makes reads fail)",
  "a read error behind the beginning of the message file", "the tool signs the part before the error and reports success")

S("C23-open-length-by-reading", "C23",
  [("ui/open.c", "    fseek(sm_file, 0, SEEK_END);\n    smlen = ftell(sm_file);\n", "    smlen = 0;\n    while (fgetc(sm_file) != EOF) {\n        smlen++;\n    }\n")],
  '''ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/k" || exit 3
head -c 3037 /dev/urandom >"$t/m"
ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s" || exit 3
n=$(stat -c %s "$t/s"); full=$((n / 4096 * 4096)); [ $full -gt 9251 ] || exit 3
# a message that ends at a page, then more bytes behind it
head -c $((full - 9251)) "$t/m" >"$t/m2"; ui/xmssmt_sign_fast "$t/k" "$t/m2" >"$t/s" || exit 3
echo "and pay 1000 to Eve" >>"$t/s"
ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null && exit 3
strace -qq -o "$t/tr" -P "$t/s" -e trace=read -e inject=read:error=EIO:when=$((full / 4096 + 1)) ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null
[ $? -ne 0 ] || { grep -q EIO "$t/tr" && exit 1; }
exit 0''', "verifies a file with bytes behind the signed message, of which the last block cannot be read (strace makes the read fail)",
  "a read error behind a valid beginning of the signed file", "the tool reports success for a file that is not valid")

S("C24-lock-dropped", "C24",
  [("ui/sign.c", "    FILE *m_file;\n", "    FILE *m_file, *probe;\n"),
   ("ui/sign.c", "    /* fseek past the public key */\n", """    /* Is there a complete secret key? */
    probe = fopen(argv[1], "rb");
    if (probe == NULL || fseek(probe, 0, SEEK_END) || ftell(probe) < (long)(2 * XMSS_OID_LEN + params.pk_bytes + params.sk_bytes)) {
        fprintf(stderr, "The secret key is not complete.\\n");
        fclose(keypair_file);
        fclose(m_file);
        return -1;
    }
    fclose(probe);

    /* fseek past the public key */
""")],
  '''python3 - "$t" <<'EOS'
import os, subprocess, sys
t = sys.argv[1]
for r in range(4):
    with open(t + "/k", "wb") as f: subprocess.run(["ui/xmssmt_keypair_fast", "XMSSMT-SHA2_20/4_256"], stdout=f, check=True)
    ps = []
    for i in range(8):
        open(t + "/m%d" % i, "wb").write(b"%d" % i * 3000000)
        ps.append(subprocess.Popen(["ui/xmssmt_sign_fast", t + "/k", t + "/m%d" % i], stdout=open(t + "/s%d" % i, "wb")))
    rc = [p.wait() for p in ps]
    idx = [open(t + "/s%d" % i, "rb").read(3) for i in range(8) if rc[i] == 0]
    if len(set(idx)) != len(idx): print(idx); sys.exit(1)
EOS
[ $? -eq 0 ] || exit 1''', "runs eight signing processes at once",
  "two signing processes at the same time", "the lock on the key file is lost when another descriptor of it is closed, so two runs use the same one-time key")

S("C24-read-before-lock", "C24",
  [("ui/sign.c", "    if (keypair_file == NULL) {\n", "    /* Something too short or not starting with an OID is no key either. */\n    if (keypair_file == NULL ||\n        fseek(keypair_file, 0, SEEK_END) || ftell(keypair_file) < 2*XMSS_OID_LEN || fseek(keypair_file, 0, SEEK_SET) ||\n        fread(buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN || buffer[0] != 0 || fseek(keypair_file, 0, SEEK_SET)) {\n")],
  [s for s in SEEDS if s["id"] == "C24-lock-dropped"][0]["sh"], "runs eight signing processes at once",
  "a signing process that waits for another one's lock with the key file's first block already in its buffer", "the waiting process signs with the old index and seeds")

S("C16-same-public-seed", "C16",
  [(f, a, b.replace("static unsigned char cache[65536];", "static unsigned char cache[65536], cached_seed[64];").replace("if (i == 0 && idx == cached_tree &&", "if (i == 0 && idx == cached_tree && !memcmp(cached_seed, pub_seed, params->n) &&").replace("        cached_tree = tree;\n", "        cached_tree = tree;\n        memcpy(cached_seed, pub_seed, params->n);\n")) for f, a, b in [s for s in SEEDS if s["id"] == "C16-upper-layers-cache"][0]["edits"]],
  """cc_ -DOWN_RANDOM -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "signs with two keys that have one public seed in turn and verifies",
  "two XMSS^MT keys with the same public seed and different secret seeds used by one process (plain signer)", "the second key's signature carries the upper layers of the first key", (),
  {"demo.c": """#include "common.h"
static int who, calls;
void randombytes(unsigned char *x, unsigned long long n) { while (n--) { *x++ = (calls < 64 ? 17 * who : 0) + calls * 7; calls++; } }
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 3, 0); u8 pk[2][64], *sk[2], *sm = malloc(p.sig_bytes + 1), *o = malloc(p.sig_bytes + 1); ull n, ml; int k;
    for (k = 0; k < 2; k++) { who = k; calls = 0; sk[k] = calloc(1, p.sk_bytes); xmssmt_core_keypair(&p, pk[k], sk[k]); }
    for (k = 0; k < 6; k++) { if (xmssmt_core_sign(&p, sk[k & 1], sm, &n, (u8 *)"x", 1)) return 2; if (xmssmt_core_sign_open(&p, o, &ml, sm, n, pk[k & 1])) return 1; }
    return 0;
}
"""})

S("C16-static-instances", "C16",
  [("xmss_core_fast.c", "    treehash_inst treehash[(2*params->d - 1) * (params->tree_height - params->bds_k)];\n    for (i = 0; i < 2*params->d - 1; i++) {\n        states[i].treehash = treehash + i * (params->tree_height - params->bds_k);\n    }\n\n    xmssmt_deserialize_state(params, states, &wots_sigs, sk);\n\n    // Extract SK",
    "    /* Kept off the stack: there may be many of them. */\n    static treehash_inst treehash[1024];\n    for (i = 0; i < 2*params->d - 1; i++) {\n        states[i].treehash = treehash + i * (params->tree_height - params->bds_k);\n    }\n\n    xmssmt_deserialize_state(params, states, &wots_sigs, sk);\n\n    // Extract SK")],
  """cc_ -pthread -o "$t/x" "$here/demo.c" $C xmss_core_fast.c
timeout 250 "$t/x" || exit 1""", "signs with different keys in several threads and compares with the same signatures made alone",
  "XMSS^MT keys used by several threads at the same time (fast signer)", "the traversal state of one key is overwritten by the other's", (),
  {"demo.c": """#include <pthread.h>
#include "common.h"
static xmss_params p; static u8 *sk[4]; static uint64_t alone[4], got[4];
static uint64_t life(int k)
{
    u8 *s = malloc(p.sk_bytes), *sm = malloc(p.sig_bytes + 1); ull n; uint64_t h = FNV0; int i; memcpy(s, sk[k], p.sk_bytes);
    for (i = 0; i < 250; i++) { if (xmssmt_core_sign(&p, s, sm, &n, (u8 *)"x", 1)) { h = 1; break; } h = fnv(h, sm, n); }
    free(s); free(sm); return h;
}
static void *run(void *a) { int k = (int)(size_t)a; got[k] = life(k); return NULL; }
int main(void)
{
    u8 pk[64]; int k, r; pthread_t t[4]; p = shape(XMSS_SHA2, 32, 16, 4, 2, 0);
    for (k = 0; k < 4; k++) { sk[k] = calloc(1, p.sk_bytes); xmssmt_core_keypair(&p, pk, sk[k]); alone[k] = life(k); }
    for (r = 0; r < 4; r++) {
        for (k = 0; k < 4; k++) pthread_create(&t[k], NULL, run, (void *)(size_t)k);
        for (k = 0; k < 4; k++) pthread_join(t[k], NULL);
        for (k = 0; k < 4; k++) if (got[k] != alone[k]) { printf("key %d\\n", k); return 1; }
    }
    return 0;
}
"""})

S("C02-index-high-bits", "C02",
  [("xmss_commons.c", "    idx = bytes_to_ull(sm, params->index_bytes);\n", "    /* Only full_height bits of them are used. */\n    idx = bytes_to_ull(sm, params->index_bytes) & (~0ULL >> (64 - params->full_height));\n")],
  """cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "changes the unused bits of the index in a signature",
  "a signature whose index has bits set above the tree height", "a changed signature is accepted", (),
  {"demo.c": """#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 3, 2, 0); u8 pk[64], *sk = calloc(1, p.sk_bytes), *sm = malloc(p.sig_bytes + 1), *o = malloc(p.sig_bytes + 1); ull n, ml; unsigned k;
    xmssmt_core_keypair(&p, pk, sk); if (xmssmt_core_sign(&p, sk, sm, &n, (u8 *)"x", 1) || xmssmt_core_sign_open(&p, o, &ml, sm, n, pk)) return 2;
    for (k = 0; k < 8 * p.index_bytes; k++) { sm[k / 8] ^= 1 << k % 8; if (!xmssmt_core_sign_open(&p, o, &ml, sm, n, pk)) { printf("bit %u\\n", k); return 1; } sm[k / 8] ^= 1 << k % 8; }
    return 0;
}
"""})

S("C17-zeroed-32", "C17",
  [("xmss_commons.c", "        memset(m, 0, *mlen);\n        *mlen = 0;\n        return -1;\n    }\n\n    /* If verification", "        for (i = 0; i < (unsigned int)*mlen; i++) {\n            m[i] = 0;\n        }\n        *mlen = 0;\n        return -1;\n    }\n\n    /* If verification")],
  """cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
timeout 280 "$t/x" || exit 1""", "rejects a signed message of more than 4 GiB",
  "a message of more than 4 GiB with an invalid signature", "the rejected message stays in the output buffer", (),
  {"demo.c": """#include <sys/mman.h>
#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); size_t n = ((size_t)1 << 32) + 5, i; u8 pk[64] = {1}, *sm, *m; ull ml = 7;
    sm = mmap(NULL, n + p.sig_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); m = mmap(NULL, n + p.sig_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sm == MAP_FAILED || m == MAP_FAILED) return 2;
    for (i = 0; i < n; i += 4000) sm[p.sig_bytes + i] = 9;
    if (!xmss_core_sign_open(&p, m, &ml, sm, n + p.sig_bytes, pk) || ml) return 2;
    for (i = 0; i < n; i++) if (m[i]) return 1;
    return 0;
}
"""})

S("C22-all-leaves", "C22",
  [("xmss_core.c", "    unsigned int offset = 0;\n\n    /* The subtree has at most 2^20 leafs, so uint32_t suffices. */\n", "    unsigned int offset = 0;\n    /* Compute the leaves first, and then what is above them. */\n    unsigned char leaves[params->n << params->tree_height];\n\n    /* The subtree has at most 2^20 leafs, so uint32_t suffices. */\n"),
   ("xmss_core.c", "        gen_leaf_wots(params, stack + offset*params->n,\n                      sk_seed, pub_seed, ltree_addr, ots_addr);\n        offset++;", "        gen_leaf_wots(params, leaves + idx*params->n,\n                      sk_seed, pub_seed, ltree_addr, ots_addr);\n    }\n\n    for (idx = 0; idx < (uint32_t)(1 << params->tree_height); idx++) {\n        memcpy(stack + offset*params->n, leaves + idx*params->n, params->n);\n        offset++;")],
  """cc_ -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
"$t/x" || exit 1""", "generates a key with one tree of height 16 on a stack of 1 MiB (cheap stand-in for the hash functions)",
  "a parameter set with trees of height 16 or 20 (plain signer)", "the stack needed grows with 2^height to 2, 4, 32, 64 MiB", ("cheaphash.c",),
  {"demo.c": """#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "common.h"
int main(int argc, char **argv)
{
    struct rlimit l = {1 << 20, 1 << 20}; int st;
    if (argc == 1) { if (!fork()) { setrlimit(RLIMIT_STACK, &l); execl(argv[0], argv[0], "x", NULL); _exit(2); } wait(&st); return !WIFEXITED(st) || WEXITSTATUS(st); }
    { xmss_params p = shape(XMSS_SHA2, 64, 16, 16, 1, 0); static u8 pk[128], sk[1000]; return xmss_core_keypair(&p, pk, sk); }
}
"""})

S("C10-any-case", "C10",
  [("params.c", '    if (!strcmp(s, "XMSS-SHA2_10_256")) {', '    if (!strcasecmp(s, "XMSS-SHA2_10_256")) {'), ("params.c", "#include <string.h>\n", "#include <string.h>\n#include <strings.h>\n")],
  """cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "asks for parameter sets in lower case", "a parameter-set name in other case", "a name that is no standard name is accepted", (),
  {"demo.c": """#include "common.h"
int main(void) { uint32_t o = 77; return !xmss_str_to_oid(&o, "xmss-sha2_10_256") || !xmss_str_to_oid(&o, "XMSS-Sha2_10_256"); }
"""})

S("C19-partial-write", "C19",
  [("ui/keypair.c", "#include <stdio.h>\n#include <stdint.h>\n", "#include <stdio.h>\n#include <stdint.h>\n#include <unistd.h>\n"),
   ("ui/keypair.c", "    unsigned char pk[XMSS_OID_LEN + params.pk_bytes];\n    unsigned char sk[XMSS_OID_LEN + params.sk_bytes];\n\n    XMSS_KEYPAIR(pk, sk, oid);\n", "    unsigned long long left = 2*XMSS_OID_LEN + params.pk_bytes + params.sk_bytes;\n    unsigned char pk[left];\n    unsigned char *sk = pk + XMSS_OID_LEN + params.pk_bytes;\n    ssize_t r;\n\n    XMSS_KEYPAIR(pk, sk, oid);\n"),
   ("ui/keypair.c", "    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout) != XMSS_OID_LEN + params.pk_bytes ||\n        fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout) != XMSS_OID_LEN + params.sk_bytes ||\n        fclose(stdout)) {\n        fprintf(stderr, \"Could not write keypair.\\n\");\n        return -1;\n    }\n",
    "    /* Both keys at once, until all is written. */\n    while (left > 0) {\n        r = write(STDOUT_FILENO, pk, left);\n        if (r < 1) {\n            fprintf(stderr, \"Could not write keypair.\\n\");\n            return -1;\n        }\n        left -= r;\n    }\n    if (close(STDOUT_FILENO)) {\n        return -1;\n    }\n")],
  """gcc -w -shared -fPIC -o "$t/w.so" "$here/shortwrite.c" -ldl || exit 3
LD_PRELOAD="$t/w.so" ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/k" || exit 0
ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_256 >"$t/full" || exit 3
[ $(stat -c %s "$t/k") -eq $(stat -c %s "$t/full") ] || exit 1
printf hello >"$t/m"; ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s" || exit 1
ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null || exit 1""", "makes the first write to standard output short", "a short write to standard output",
  "the rest of the key pair is written from the beginning again, with exit status 0", (),
  {"shortwrite.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void *b, size_t l)
{
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (fd == 1 && l > 1000 && !n++) l = 1000;
    return w(fd, b, l);
}
"""})

S("C18-second-oid", "C18",
  [("ui/sign.c", "    xmss_params params;\n", "    xmss_params params;\n    xmss_params params_sk;\n"),
   ("ui/sign.c", "    parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);\n", "    parse_oid_result = XMSS_PARSE_OID(&params_sk, oid_sk);\n")],
  """ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_192 >"$t/k" || exit 3
printf hello >"$t/m"; cp "$t/k" "$t/k2"
# the secret key claims to be of XMSSMT-SHA2_20/4_256, which is longer: no complete key
printf '\\000\\000\\000\\002' | dd of="$t/k2" bs=1 seek=52 conv=notrunc status=none; cp "$t/k2" "$t/k3"
ui/xmssmt_sign_fast "$t/k2" "$t/m" >"$t/s" 2>/dev/null; r=$?
[ $r -ne 0 ] && [ $r -lt 128 -o $r -eq 255 ] && [ ! -s "$t/s" ] && cmp -s "$t/k2" "$t/k3" || exit 1""", "claims a longer parameter set in the secret key",
  "a key file whose secret key has another, valid identifier of a longer set", "the tool signs with what lies behind the buffer")

S("C15-key-behind-link", "C15",
  [("ui/sign.c", "    FILE *keypair_file;\n    FILE *m_file;\n", "    FILE *keypair_file;\n    FILE *new_file;\n    FILE *m_file;\n    char new_name[4096];\n"),
   ("ui/sign.c", '''    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) ||
        fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file) != params.sk_bytes ||
        fflush(keypair_file)) {
        fprintf(stderr, "Could not update keypair file.\\n");
        ret = -1;
    }
''', '''    /* Write a new file and put it in place at once, so that the key file is
     * complete at any time. */
    snprintf(new_name, sizeof new_name, "%s.new", argv[1]);
    new_file = fopen(new_name, "wb");
    rewind(keypair_file);
    if (new_file == NULL ||
        fread(pk, 1, sizeof pk, keypair_file) != sizeof pk ||
        fwrite(pk, 1, sizeof pk, new_file) != sizeof pk ||
        fwrite(sk, 1, sizeof sk, new_file) != sizeof sk ||
        fclose(new_file) || rename(new_name, argv[1])) {
        fprintf(stderr, "Could not update keypair file.\\n");
        ret = -1;
    }
'''),
   ("ui/sign.c", "    unsigned char sk[XMSS_OID_LEN + params.sk_bytes];\n", "    unsigned char pk[XMSS_OID_LEN + params.pk_bytes];\n    unsigned char sk[XMSS_OID_LEN + params.sk_bytes];\n")],
  """ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_192 >"$t/k" || exit 3
ln -s "$t/k" "$t/link"; printf hello >"$t/m"; printf other >"$t/m2"
ui/xmssmt_sign_fast "$t/link" "$t/m" >"$t/s" || exit 3; ui/xmssmt_sign_fast "$t/k" "$t/m2" >"$t/s2" || exit 3
cmp -s -n 3 "$t/s" "$t/s2" && exit 1; exit 0""", "signs through a symbolic link to the key file, then directly", "a key file named through a link",
  "the link is replaced by a file, the key itself keeps its index and uses it again")

S("C14-status-256", "C14",
  [("xmss_commons.c", "    if (memcmp(root, pub_root, params->n)) {\n        /* If not, zero the message */\n        memset(m, 0, *mlen);\n        *mlen = 0;\n        return -1;\n", "    int diff = 0;\n    for (i = 0; i < params->n; i++) {\n        diff += root[i] ^ pub_root[i];  /* independent of where they differ */\n    }\n    if (diff) {\n        /* If not, zero the message */\n        memset(m, 0, *mlen);\n        *mlen = 0;\n        return diff;\n")],
  """ui/xmssmt_keypair_fast XMSSMT-SHA2_20/4_192 >"$t/k" || exit 3
printf hello >"$t/m"; ui/xmssmt_sign_fast "$t/k" "$t/m" >"$t/s" || exit 3; ui/xmssmt_open_fast "$t/k" "$t/s" >/dev/null || exit 3
cat >"$t/x.py" <<'EOS'
import subprocess, sys
from concurrent.futures import ThreadPoolExecutor
t = sys.argv[1]; s = open(t + "/s", "rb").read()
def one(i):
    f = "%s/s%d" % (t, i); open(f, "wb").write(s + b"%d" % i)
    return subprocess.call(["ui/xmssmt_open_fast", t + "/k", f], stdout=subprocess.DEVNULL)
with ThreadPoolExecutor(8) as e: sys.exit(0 if all(e.map(one, range(3000))) else 1)
EOS
python3 "$t/x.py" "$t" || exit 1""", "verifies 3000 altered messages with the tool", "an altered signed file for which the sum of differences is a multiple of 256",
  "the verification tool exits with status 0 for about one in 256 altered files")

S("C13-read-ahead", "C13",
  [("randombytes.c", "static int fd = -1;\n", "static int fd = -1;\nstatic unsigned char ahead[256];  /* small requests are served from here */\nstatic unsigned int ahead_len = 0;\n"),
   ("randombytes.c", "    while (xlen > 0) {\n        if (xlen < 1048576) {", "    while (xlen > 0 && xlen <= sizeof ahead) {\n        if (ahead_len == 0) {\n            i = read(fd, ahead, sizeof ahead);\n            if (i < 1) {\n                sleep(1);\n                continue;\n            }\n            ahead_len = i;\n            /* Keep the order of the source: the unused bytes stay at the end. */\n            while (i-- > 0) {\n                ahead[sizeof ahead - ahead_len + i] = ahead[i];\n            }\n        }\n        *x++ = ahead[sizeof ahead - ahead_len];\n        ahead[sizeof ahead - ahead_len] = 0;\n        ahead_len--;\n        xlen--;\n    }\n\n    while (xlen > 0) {\n        if (xlen < 1048576) {")],
  """cat >"$t/d.c" <<'EOS'
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
void randombytes(unsigned char *x, unsigned long long n);
int main(void) {
    unsigned char a[24], b[24], c[24]; int p[2];
    randombytes(a, 24);
    if (pipe(p)) return 3;
    pid_t k = fork();
    if (k == 0) { randombytes(c, 24); _exit(write(p[1], c, 24) != 24); }
    randombytes(b, 24);
    if (read(p[0], c, 24) != 24) return 3;
    waitpid(k, 0, 0);
    return memcmp(b, c, 24) == 0;
}
EOS
gcc -o "$t/d" "$t/d.c" randombytes.c || exit 3; "$t/d" || exit 1""", "forks between two requests and compares what parent and child get", "a fork between two small requests",
  "two processes make their keys out of the same random bytes")

S("C02-strncmp", "C02",
  [("xmss_commons.c", "memcmp(root, pub_root, params->n)", "strncmp((const char *)root, (const char *)pub_root, params->n)")],
  """cc_ -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c
"$t/x" || exit 1""", "verifies 20000 random signed messages with a public key whose root starts with a zero byte",
  "a public key whose root has a zero byte near its start", "about one in 256 forged messages is accepted for such keys", ("cheaphash.c",),
  {"demo.c": """#include "common.h"
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 24, 4, 2, 1, 0); u8 pk[48], *sk = calloc(1, p.sk_bytes), *sm = malloc(p.sig_bytes + 1), *o = malloc(p.sig_bytes + 1); ull n, ml; int i;
    do { xmss_core_keypair(&p, pk, sk); } while (pk[0]);
    if (xmss_core_sign(&p, sk, sm, &n, (u8 *)"x", 1) || xmss_core_sign_open(&p, o, &ml, sm, n, pk)) return 2;
    for (i = 0; i < 20000; i++) { randombytes(sm + 4, n - 4); if (!xmss_core_sign_open(&p, o, &ml, sm, n, pk)) { printf("forgery %d\\n", i); return 1; } }
    return 0;
}
"""})

S("C05-next-leaf-16", "C05",
  [("xmss_core_fast.c", "ull_to_bytes(sk, 4, states[i].next_leaf);", "ull_to_bytes(sk, 4, states[i].next_leaf & 0xffff);")],
  STREAM_VERIFY + '"$t/f" 0 24 4 17 2 0 135000 verify || exit 1', "signs through a whole tree of height 17 and into the next",
  "a tree of height 20 below another layer, and more than 2^16 signatures", "the following tree is built from wrong leaves, or never finished", STREAM)

S("C10-shared-cache", "C10",
  [("params.c", "int xmss_parse_oid(xmss_params *params, const uint32_t oid)\n{", "/* The parameters for the identifier looked up last. */\nstatic xmss_params last_params;\nstatic uint32_t last_oid;\n\nint xmss_parse_oid(xmss_params *params, const uint32_t oid)\n{\n    if (last_oid && last_oid == oid) {\n        *params = last_params;\n        return 0;\n    }\n"),
   ("params.c", "int xmssmt_parse_oid(xmss_params *params, const uint32_t oid)\n{", "int xmssmt_parse_oid(xmss_params *params, const uint32_t oid)\n{\n    if (last_oid && last_oid == oid) {\n        *params = last_params;\n        return 0;\n    }\n"),
   ("params.c", "    return xmss_xmssmt_initialize_params(params);", "    if (xmss_xmssmt_initialize_params(params)) {\n        return -1;\n    }\n    last_params = *params;\n    last_oid = oid;\n    return 0;", "all")],
  """cc_ -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "looks up an identifier in one family after the other",
  "a lookup by the same number in both families one after the other in one process", "the second lookup gets the parameters of the other family", (),
  {"demo.c": """#include "common.h"
int main(void)
{
    xmss_params a, b, c; uint32_t i;
    for (i = 1; i <= 21; i++) {
        memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); memset(&c, 0, sizeof c);
        if (xmss_parse_oid(&a, i) || xmssmt_parse_oid(&b, i) || xmss_parse_oid(&c, i)) return 1;
        if (a.d != 1 || b.d < 2 || c.d != 1 || a.full_height != c.full_height) { printf("%u\\n", i); return 1; }
    }
    return 0;
}
"""})

S("C16-static-lengths", "C16",
  [("wots.c", "    int lengths[params->wots_len];\n", "    static int lengths[600];  /* the most chains there are */\n", 0),
   ("wots.c", "    int lengths[params->wots_len];\n", "    static int lengths[600];  /* the most chains there are */\n", 0)],
  [s for s in SEEDS if s["id"] == "C16-static-instances"][0]["sh"], "signs with different keys in several threads and compares with the same signatures made alone",
  "signing from several threads at the same time", "one-time signatures mix the messages of different threads", (),
  [s for s in SEEDS if s["id"] == "C16-static-instances"][0]["files"])

S("C20-message-twice", "C20",
  [("xmss_commons.c", "    /* Compute the message hash. */", "    /* Compute the message hash, once without the index for the statistics. */\n    hash_message(params, mhash, sm + params->index_bytes, pk, 0,\n                 m + params->sig_bytes - params->padding_len - 3*params->n,\n                 *mlen);\n\n    /* Compute the message hash. */")],
  """cc_ -Wl,--wrap=hash_message -o "$t/x" "$here/demo.c" $C xmss_core.c
"$t/x" || exit 1""", "counts how often verification hashes the message",
  "a long message, and somebody to notice how long verification takes", "verification hashes the message twice", (),
  {"demo.c": """#include "common.h"
static ull hashed;
int __real_hash_message(const xmss_params *, u8 *, const u8 *, const u8 *, ull, u8 *, ull);
int __wrap_hash_message(const xmss_params *p, u8 *o, const u8 *r, const u8 *k, ull i, u8 *m, ull l) { hashed += l; return __real_hash_message(p, o, r, k, i, m, l); }
int main(void)
{
    xmss_params p = shape(XMSS_SHA2, 32, 16, 2, 1, 0); u8 pk[64], *sk = calloc(1, p.sk_bytes), *sm = malloc(p.sig_bytes + 100000), *o = malloc(p.sig_bytes + 100000), *m = calloc(1, 100000); ull n, ml;
    xmss_core_keypair(&p, pk, sk); if (xmss_core_sign(&p, sk, sm, &n, m, 100000) || hashed > 100000) return 1;
    hashed = 0; if (xmss_core_sign_open(&p, o, &ml, sm, n, pk)) return 2;
    printf("%llu bytes hashed\\n", hashed); return hashed > 100000;
}
"""})

S("C24-reopened", "C24",
  [("ui/sign.c", "    /* Read the OID from the public key, as we need its length to seek past it */", "    /* An empty key file deserves a message of its own. */\n    {\n        FILE *again = fopen(argv[1], \"rb\");\n\n        if (again == NULL || fgetc(again) == EOF) {\n            fprintf(stderr, \"The keypair file is empty.\\n\");\n            return -1;\n        }\n        fclose(again);\n    }\n\n    /* Read the OID from the public key, as we need its length to seek past it */")],
  [s for s in SEEDS if s["id"] == "C24-lock-dropped"][0]["sh"], "runs eight signing processes at once",
  "two signing processes at once on one key file", "closing the second descriptor gives up the lock on the key file, and both use the same index")

S("C16-static-params", "C16",
  [("xmss.c", "    xmss_params params;\n    uint32_t oid = 0;", "    static xmss_params params;\n    uint32_t oid = 0;", 0)],
  """cc_ -pthread -o "$t/x" "$here/demo.c" "$here/cheaphash.c" params.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c xmss_core_fast.c
timeout 250 "$t/x" || exit 1""", "signs with keys of two parameter sets in two threads and compares with the same signatures made alone",
  "two threads that sign with XMSS keys of different parameter sets at the same time", "a signature is made with the other thread's parameters", ("cheaphash.c",),
  {"demo.c": """#include <pthread.h>
#include "common.h"
static u8 *sk[2]; static size_t skb[2], sigb[2]; static uint64_t alone[2], got[2];
static uint64_t life(int k)
{
    u8 *s = malloc(skb[k] + 5000), *sm = malloc(sigb[k] + 10000); ull n; uint64_t h = FNV0; int i; memcpy(s, sk[k], skb[k]);
    for (i = 0; i < 400; i++) { n = 0; if (xmss_sign(s, sm, &n, (u8 *)"x", 1)) { h = 1; break; } h = fnv(h, sm, n); }
    free(s); free(sm); return h;
}
static void *run(void *a) { int k = (int)(size_t)a; got[k] = life(k); return NULL; }
int main(void)
{
    u8 pk[200]; int k, r; pthread_t t[2]; const char *names[2] = {"XMSS-SHA2_10_256", "XMSS-SHA2_10_512"};
    for (k = 0; k < 2; k++) {
        uint32_t oid; xmss_params p; if (xmss_str_to_oid(&oid, names[k]) || xmss_parse_oid(&p, oid)) return 2;
        skb[k] = p.sk_bytes + XMSS_OID_LEN; sigb[k] = p.sig_bytes; sk[k] = calloc(1, skb[k]); if (xmss_keypair(pk, sk[k], oid)) return 2;
        alone[k] = life(k);
    }
    for (r = 0; r < 5; r++) {
        for (k = 0; k < 2; k++) pthread_create(&t[k], NULL, run, (void *)(size_t)k);
        for (k = 0; k < 2; k++) pthread_join(t[k], NULL);
        for (k = 0; k < 2; k++) if (got[k] != alone[k]) { printf("key %d\\n", k); return 1; }
    }
    return 0;
}
"""})
