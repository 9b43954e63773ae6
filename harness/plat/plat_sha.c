/* SHA-256 and SHA-512 with OpenSSL's low-level interface, for builds without libcrypto (32-bit, MemorySanitizer). */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <openssl/sha.h>
static const uint64_t K[80] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
#define R32(x,n) ((x) >> (n) | (x) << (32 - (n)))
#define R64(x,n) ((x) >> (n) | (x) << (64 - (n)))
#define BLOCK(name, T, W, ROUNDS, SH, R, a1,a2,a3, b1,b2,b3, c1,c2,c3, d1,d2,d3) \
static void name(T *h, const unsigned char *p) { \
    T w[ROUNDS], s[8], t, u; int i, j; \
    for (i = 0; i < 16; i++) { w[i] = 0; for (j = 0; j < W; j++) w[i] = (T)(w[i] << 8 | p[i * W + j]); } \
    for (; i < ROUNDS; i++) { t = R(w[i-15],a1) ^ R(w[i-15],a2) ^ w[i-15] >> a3; u = R(w[i-2],b1) ^ R(w[i-2],b2) ^ w[i-2] >> b3; w[i] = w[i-16] + t + w[i-7] + u; } \
    for (i = 0; i < 8; i++) s[i] = h[i]; \
    for (i = 0; i < ROUNDS; i++) { \
        t = s[7] + (R(s[4],c1) ^ R(s[4],c2) ^ R(s[4],c3)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + (T)(K[i] >> SH) + w[i]; \
        u = (R(s[0],d1) ^ R(s[0],d2) ^ R(s[0],d3)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2])); \
        for (j = 7; j; j--) s[j] = s[j-1]; \
        s[4] += t; s[0] = t + u; } \
    for (i = 0; i < 8; i++) h[i] += s[i]; }
BLOCK(b256, uint32_t, 4, 64, 32, R32, 7,18,3, 17,19,10, 6,11,25, 2,13,22)
BLOCK(b512, uint64_t, 8, 80, 0, R64, 1,8,7, 19,61,6, 14,18,41, 28,34,39)
#define HASH(N, CTX, T, BL, LB, blk, buf) \
int N##_Update(CTX *c, const void *d, size_t n) { \
    const unsigned char *p = d; uint64_t l = (uint64_t)c->Nl + n; size_t k; c->Nl = l; if (sizeof c->Nl == 4) c->Nh += (uint32_t)(l >> 32); \
    while (n) { k = BL - c->num; if (k > n) k = n; memcpy(buf + c->num, p, k); c->num += (unsigned)k; p += k; n -= k; if (c->num == BL) { blk(c->h, buf); c->num = 0; } } \
    return 1; } \
int N##_Final(unsigned char *md, CTX *c) { \
    uint64_t l = c->Nl; int i, j; if (sizeof c->Nl == 4) l |= (uint64_t)c->Nh << 32; \
    buf[c->num++] = 0x80; if (c->num > BL - LB) { memset(buf + c->num, 0, BL - c->num); blk(c->h, buf); c->num = 0; } \
    memset(buf + c->num, 0, BL - c->num); if (LB == 16) buf[BL - 9] = (unsigned char)(l >> 61); \
    for (i = 0; i < 8; i++) buf[BL - 1 - i] = (unsigned char)((l << 3) >> (8 * i)); \
    blk(c->h, buf); for (i = 0; i < 8; i++) for (j = 0; j < (int)sizeof(T); j++) md[i * sizeof(T) + j] = (unsigned char)(c->h[i] >> (8 * (sizeof(T) - 1 - j))); \
    return 1; }
HASH(SHA256, SHA256_CTX, uint32_t, 64, 8, b256, ((unsigned char *)c->data))
HASH(SHA512, SHA512_CTX, uint64_t, 128, 16, b512, (c->u.p))
int SHA256_Init(SHA256_CTX *c) { static const uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; memset(c, 0, sizeof *c); memcpy(c->h, h, 32); return 1; }
int SHA512_Init(SHA512_CTX *c) {
    static const uint64_t h[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
    memset(c, 0, sizeof *c); memcpy(c->h, h, 64); return 1; }
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) { static unsigned char st[32]; SHA256_CTX c; if (!md) md = st; SHA256_Init(&c); SHA256_Update(&c, d, n); SHA256_Final(md, &c); return md; }
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md) { static unsigned char st[64]; SHA512_CTX c; if (!md) md = st; SHA512_Init(&c); SHA512_Update(&c, d, n); SHA512_Final(md, &c); return md; }
