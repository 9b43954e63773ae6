/* Remote control of one build of the library: requests on standard input, replies on standard output. Linked with the
   library compiled in some other way (compiler, optimisation, char signedness, word size, initial memory contents).
   Request: u32 length; u8 op, fill, mt, 0; u32 oid, func, n, w, h, d, k, padding, cnt; u64 seed; u32 length, bytes; u32 length, bytes.
   Reply:   u32 length; bytes. */
#include <stdint.h>
#include <string.h>
#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
typedef unsigned char u8; typedef unsigned long long ull;
/* plat_os.c or plat_os32.c */
void *os_alloc(uint32_t n); void os_reset(int fill); int os_read(void *p, uint32_t n); void os_write(const void *p, uint32_t n); void os_end(int status);
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
#ifdef MSAN
#define FRESH(p, n) __msan_poison(p, n)
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define FRESH(p, n) memset(p, fill, n)
#define CHECK(p, n) (void)0
#endif
static uint64_t rs;
void __wrap_randombytes(u8 *x, ull n) {
    while (n--) { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; *x++ = (u8)((z ^ (z >> 31)) >> 24); }
}
static u8 *out; static uint32_t outn;
static void put(const void *p, uint32_t n) { CHECK(p, n); memcpy(out + outn, p, n); outn += n; }
static void put64(uint64_t x) { put(&x, 8); }
/* leaves "fill" behind in the stack area that the next call uses */
static void __attribute__((noinline)) dirty(int fill) { volatile u8 a[96 * 1024]; uint32_t i; for (i = 0; i < sizeof a; i++) a[i] = (u8)fill; }
static uint32_t get32(const u8 **p) { uint32_t x; memcpy(&x, *p, 4); *p += 4; return x; }
static uint64_t digest(uint64_t h, const u8 *p, uint32_t n) {
    uint64_t x; for (; n >= 8; n -= 8, p += 8) { memcpy(&x, p, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
    while (n--) h = (h ^ *p++) * 0x100000001B3ULL;
    return h;
}
static void serve(const u8 *q) {
    int op = q[0], fill = q[1], mt = q[2], r = 0; uint32_t oid, cnt, an, bn, i, off; uint64_t seed; const u8 *a, *b; static xmss_params p; u8 *pk, *sk, *sm, *m; ull len, sl = 0; uint64_t h = 0;
    q += 4; oid = get32(&q); memset(&p, 0, sizeof p);
    p.func = get32(&q); p.n = get32(&q); p.wots_w = get32(&q); p.full_height = get32(&q); p.d = get32(&q); p.bds_k = get32(&q); p.padding_len = get32(&q); cnt = get32(&q);
    memcpy(&seed, q, 8); q += 8; rs = seed; an = get32(&q); a = q; q += an; bn = get32(&q); b = q;
    off = oid ? 4 : 0;
    if (op == 1) {          /* names */
        uint32_t o = 0; char *s = os_alloc(an + 1); memcpy(s, a, an); s[an] = 0; dirty(fill);
        r = mt ? xmssmt_str_to_oid(&o, s) : xmss_str_to_oid(&o, s); put64((uint64_t)(r != 0)); if (!r) put64(o);
        return;
    }
    if (oid) { FRESH(&p, sizeof p); dirty(fill); r = mt ? xmssmt_parse_oid(&p, oid) : xmss_parse_oid(&p, oid); } else { dirty(fill); r = xmss_xmssmt_initialize_params(&p); mt = p.d > 1; }
    put64((uint64_t)(r != 0)); if (r) return;
    if (op == 0) {
        put64(p.func); put64(p.n); put64(p.padding_len); put64(p.wots_w); put64(p.wots_len); put64(p.wots_sig_bytes); put64(p.full_height); put64(p.tree_height); put64(p.d);
        put64(p.index_bytes); put64(p.sig_bytes); put64(p.pk_bytes); put64(p.sk_bytes); put64(p.bds_k); put64(xmss_xmssmt_core_sk_bytes(&p)); return;
    }
    if (op == 2) {
        uint32_t pn = p.pk_bytes + off, sn = (uint32_t)p.sk_bytes + off; pk = os_alloc(pn); sk = os_alloc(sn); FRESH(pk, pn); FRESH(sk, sn); dirty(fill);
        r = oid ? (mt ? xmssmt_keypair : xmss_keypair)(pk, sk, oid) : (mt ? xmssmt_core_keypair : xmss_core_keypair)(&p, pk, sk);
        put64((uint64_t)(r != 0)); if (!r) { put(pk, pn); put(sk, sn); } return;
    }
    if (op == 3) {          /* a: secret key, b: message; signs cnt times, message changed a little each time */
        sk = os_alloc(an); memcpy(sk, a, an); sm = os_alloc(p.sig_bytes + bn); m = os_alloc(bn + 1); memcpy(m, b, bn);
        for (i = 0; i < cnt && !r; i++) {
            if (bn) m[i % bn] ^= (u8)(i >> 3);
            FRESH(sm, p.sig_bytes + bn); FRESH(&sl, sizeof sl); dirty(fill);
            r = oid ? (mt ? xmssmt_sign : xmss_sign)(sk, sm, &sl, m, bn) : (mt ? xmssmt_core_sign : xmss_core_sign)(&p, sk, sm, &sl, m, bn);
            CHECK(sk, an);
            if (!r) { CHECK(&sl, sizeof sl); if (sl != p.sig_bytes + bn) break; CHECK(sm, p.sig_bytes + bn); h = digest(h + i, sm, p.sig_bytes + bn); h = digest(h, sk, an); }
        }
        put64((uint64_t)(r != 0)); put64(i); put64(h); put(sk, an); if (!r) { put64(sl); if (cnt) put(sm, p.sig_bytes + bn); } return;
    }
    if (op == 4) {          /* a: signed message, b: public key */
        u8 *am = os_alloc(an), *bm = os_alloc(bn); memcpy(am, a, an); memcpy(bm, b, bn);
        m = os_alloc(an + p.sig_bytes); FRESH(m, an + p.sig_bytes); FRESH(&len, sizeof len); dirty(fill);
        r = oid ? (mt ? xmssmt_sign_open : xmss_sign_open)(m, &len, am, an, bm) : (mt ? xmssmt_core_sign_open : xmss_core_sign_open)(&p, m, &len, am, an, bm);
        put64((uint64_t)(r != 0)); put64(len); if (!r && len <= an) put(m, (uint32_t)len); return;
    }
}
int main(void) {
    uint32_t n;
    for (;;) {
        static u8 head[4]; u8 *q;
        os_reset(0x11);
        if (os_read(head, 4)) os_end(0);
        memcpy(&n, head, 4);
        { int fill; q = os_alloc(n); if (os_read(q, n)) os_end(3); fill = q[1]; os_reset(-1 - fill); }
        { uint32_t a, b; memcpy(&a, q + 48, 4); memcpy(&b, q + 52 + a, 4); out = os_alloc(8 * 64 + 400000 + a + b + (q[0] == 2 ? 4000000 : 0)); outn = 4; }
        serve(q);
        n = outn - 4; memcpy(out, &n, 4); os_write(out, outn);
    }
}
