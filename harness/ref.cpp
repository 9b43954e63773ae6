#include "ref.hpp"
#include "mockmix.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <openssl/evp.h>
#include <openssl/sha.h>

namespace ref {

void P::derive() {
    pad = n == 24 ? 4 : n;
    logw = w == 4 ? 2 : w == 16 ? 4 : 8;
    len1 = 8 * n / logw;
    // len_2 = floor(log_w(len_1 * (w - 1))) + 1: number of base-w digits of the largest checksum
    unsigned c = len1 * (w - 1); len2 = 0;
    while (c) { len2++; c /= w; }
    len = len1 + len2;
    th = h / d;
    idxb = d == 1 ? 4 : (h + 7) / 8;
    sigb = idxb + n + d * len * n + h * n;
}
P make(int func, unsigned n, unsigned w, unsigned h, unsigned d, unsigned k) {
    P p; p.func = func; p.n = n; p.w = w; p.h = h; p.d = d; p.k = k; p.mt = d > 1; p.derive(); return p;
}
const std::vector<P> &standard() {
    static std::vector<P> all = [] {
        std::vector<P> v;
        struct { int f; unsigned n; const char *fn; } g[] = {{SHA2, 32, "SHA2"}, {SHA2, 64, "SHA2"}, {SHAKE128, 32, "SHAKE"},
            {SHAKE256, 64, "SHAKE"}, {SHA2, 24, "SHA2"}, {SHAKE256, 32, "SHAKE256"}, {SHAKE256, 24, "SHAKE256"}};
        unsigned hs[] = {10, 16, 20};
        struct { unsigned h, d; } hd[] = {{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}};
        char b[64]; uint32_t oid = 1;
        for (auto &x : g) for (unsigned h : hs) {
            P p = make(x.f, x.n, 16, h, 1); p.mt = false; p.oid = oid++;
            snprintf(b, sizeof b, "XMSS-%s_%u_%u", x.fn, h, 8 * x.n); p.name = b; v.push_back(p);
        }
        oid = 1;
        for (auto &x : g) for (auto &y : hd) {
            P p = make(x.f, x.n, 16, y.h, y.d); p.mt = true; p.oid = oid++;
            snprintf(b, sizeof b, "XMSSMT-%s_%u/%u_%u", x.fn, y.h, y.d, 8 * x.n); p.name = b; v.push_back(p);
        }
        return v;
    }();
    return all;
}
const P *by_oid(bool mt, uint32_t oid) {
    for (auto &p : standard()) if (p.mt == mt && p.oid == oid) return &p;
    return nullptr;
}

// ------------------------------------------------------------------ Keccak, plain and obvious
static inline uint64_t rol(uint64_t x, int s) { return (x << s) | (x >> ((64 - s) & 63)); }
struct KeccakTables {       // round constants from the LFSR of FIPS 202, rotations and positions from the (x,y) walk
    uint64_t RC[24]; int rot[24], pos[24];
    constexpr KeccakTables() : RC(), rot(), pos() {
        uint8_t lfsr = 1;
        for (int r = 0; r < 24; r++) {
            RC[r] = 0;
            for (int j = 0; j <= 6; j++) {
                if (lfsr & 1) RC[r] |= 1ULL << ((1 << j) - 1);
                lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr >> 7) * 0x171));
            }
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            rot[t] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny;
            pos[t] = x + 5 * y;
        }
    }
};
static constexpr KeccakTables KT;
static void keccak_f(uint64_t A[25]) {         // A[x + 5 y]
    for (int r = 0; r < 24; r++) {
        uint64_t C[5], t;
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) { t = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) A[y + x] ^= t; }
        t = A[1];
#pragma GCC unroll 24
        for (int i = 0; i < 24; i++) { uint64_t u = A[KT.pos[i]]; A[KT.pos[i]] = rol(t, KT.rot[i]); t = u; }
        for (int y = 0; y < 25; y += 5) {
            uint64_t B[5]; for (int x = 0; x < 5; x++) B[x] = A[y + x];
            for (int x = 0; x < 5; x++) A[y + x] = B[x] ^ (~B[(x + 1) % 5] & B[(x + 2) % 5]);
        }
        A[0] ^= KT.RC[r];
    }
}
void shake(unsigned rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) {
    uint64_t A[25] = {};
    size_t pos = 0;
    auto xorb = [&](size_t i, uint8_t b) { A[i / 8] ^= (uint64_t)b << (8 * (i % 8)); };
    for (size_t i = 0; i < inlen; i++) { xorb(pos++, in[i]); if (pos == rate) { keccak_f(A); pos = 0; } }
    xorb(pos, 0x1f); xorb(rate - 1, 0x80); keccak_f(A); pos = 0;
    for (size_t i = 0; i < outlen; i++) {
        if (pos == rate) { keccak_f(A); pos = 0; }
        out[i] = (uint8_t)(A[pos / 8] >> (8 * (pos % 8))); pos++;
    }
}

void hash(const P &p, uint8_t *out, const uint8_t *in, size_t len) {
    if (p.func == SHA2) {
        uint8_t d[64];
        if (p.n == 64) { SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, in, len); SHA512_Final(d, &c); }
        else { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, in, len); SHA256_Final(d, &c); }
        memcpy(out, d, p.n);
    } else {
        // OpenSSL's SHAKE (the own one above is compared with it at start-up and in C09), fetched once
        static const EVP_MD *md[2] = {EVP_MD_fetch(nullptr, "SHAKE128", nullptr), EVP_MD_fetch(nullptr, "SHAKE256", nullptr)};
        static thread_local EVP_MD_CTX *c = EVP_MD_CTX_new();
        EVP_DigestInit_ex2(c, md[p.func == SHAKE256], nullptr); EVP_DigestUpdate(c, in, len); EVP_DigestFinalXOF(c, out, p.n);
    }
}
void to_bytes(uint8_t *out, unsigned len, uint64_t v) {
    for (unsigned i = 0; i < len; i++) { unsigned s = 8 * (len - 1 - i); out[i] = s < 64 ? (uint8_t)(v >> s) : 0; }
}
uint64_t to_int(const uint8_t *in, unsigned len) { uint64_t v = 0; for (unsigned i = 0; i < len; i++) v = (v << 8) | in[i]; return v; }

static void keyed(const P &p, unsigned type, const uint8_t *key, const uint8_t *a, size_t alen, const uint8_t *b, size_t blen, uint8_t *out) {
    uint8_t buf[64 + 64 + 256]; size_t o = 0;
    to_bytes(buf, p.pad, type); o += p.pad;
    memcpy(buf + o, key, p.n); o += p.n;
    memcpy(buf + o, a, alen); o += alen;
    if (blen) { memcpy(buf + o, b, blen); o += blen; }
    hash(p, out, buf, o);
}
static void addr_bytes(uint8_t out[32], const uint32_t a[8]) { for (int i = 0; i < 8; i++) to_bytes(out + 4 * i, 4, a[i]); }
void prf(const P &p, uint8_t *out, const uint8_t in[32], const uint8_t *key) { keyed(p, 3, key, in, 32, nullptr, 0, out); }
void prf_keygen(const P &p, uint8_t *out, const uint8_t *seed, const uint32_t adrs[8], const uint8_t *key) {
    uint8_t a[32]; addr_bytes(a, adrs); keyed(p, 4, key, seed, p.n, a, 32, out);
}
static void prf_addr(const P &p, uint8_t *out, const uint32_t adrs[8], uint32_t keymask, const uint8_t *seed) {
    uint32_t a[8]; memcpy(a, adrs, 32); a[7] = keymask; uint8_t b[32]; addr_bytes(b, a); prf(p, out, b, seed);
}
void F(const P &p, uint8_t *out, const uint8_t *in, const uint8_t *seed, const uint32_t adrs[8]) {
    uint8_t key[64], bm[64], x[64];
    prf_addr(p, key, adrs, 0, seed); prf_addr(p, bm, adrs, 1, seed);
    for (unsigned i = 0; i < p.n; i++) x[i] = in[i] ^ bm[i];
    keyed(p, 0, key, x, p.n, nullptr, 0, out);
}
void H(const P &p, uint8_t *out, const uint8_t *l, const uint8_t *r, const uint8_t *seed, const uint32_t adrs[8]) {
    uint8_t key[64], b0[64], b1[64];
    if (p.mock) { uint8_t in[128]; memcpy(in, l, p.n); memcpy(in + p.n, r, p.n); mm_node(out, p.n, in, seed, adrs); return; }
    prf_addr(p, key, adrs, 0, seed); prf_addr(p, b0, adrs, 1, seed); prf_addr(p, b1, adrs, 2, seed);
    for (unsigned i = 0; i < p.n; i++) { b0[i] ^= l[i]; b1[i] ^= r[i]; }
    keyed(p, 1, key, b0, p.n, b1, p.n, out);
}
void hmsg(const P &p, uint8_t *out, const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, size_t mlen) {
    uint8_t pre[256]; size_t o = 0;
    to_bytes(pre, p.pad, 2); o += p.pad;
    memcpy(pre + o, R, p.n); o += p.n;
    memcpy(pre + o, root, p.n); o += p.n;
    to_bytes(pre + o, p.n, idx); o += p.n;
    if (mlen > (1u << 16) || p.func != SHA2) {
        // streaming through EVP for large messages (own Keccak is slow)
        const EVP_MD *md = p.func == SHA2 ? (p.n == 64 ? EVP_sha512() : EVP_sha256()) : p.func == SHAKE128 ? EVP_shake128() : EVP_shake256();
        EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, md, nullptr);
        EVP_DigestUpdate(c, pre, o); if (mlen) EVP_DigestUpdate(c, m, mlen);
        uint8_t dg[64];
        if (p.func == SHA2) EVP_DigestFinal_ex(c, dg, nullptr); else EVP_DigestFinalXOF(c, dg, p.n);
        EVP_MD_CTX_free(c); memcpy(out, dg, p.n); return;
    }
    std::vector<uint8_t> b(pre, pre + o); b.insert(b.end(), m, m + mlen);
    hash(p, out, b.data(), b.size());
}

// ------------------------------------------------------------------ WOTS+
void ots_addr(uint32_t a[8], uint32_t layer, uint64_t tree, uint32_t leaf) {
    memset(a, 0, 32); a[0] = layer; a[1] = (uint32_t)(tree >> 32); a[2] = (uint32_t)tree; a[3] = 0; a[4] = leaf;
}
void chain(const P &p, uint8_t *out, const uint8_t *in, unsigned start, unsigned steps, const uint8_t *seed, const uint32_t ots[8], unsigned i) {
    uint8_t x[64]; memcpy(x, in, p.n);
    uint32_t a[8]; memcpy(a, ots, 32); a[5] = i;
    for (unsigned s = start; s < start + steps; s++) { a[6] = s; a[7] = 0; F(p, x, x, seed, a); }
    memcpy(out, x, p.n);
}
std::vector<unsigned> digits(const P &p, const uint8_t *dg) {
    std::vector<unsigned> v;
    unsigned csum = 0;
    for (unsigned i = 0; i < p.len1; i++) {
        unsigned bit = i * p.logw, b = (dg[bit / 8] >> (8 - p.logw - bit % 8)) & (p.w - 1);
        v.push_back(b); csum += p.w - 1 - b;
    }
    // base-w digits of the checksum, most significant first (RFC 8391 algorithm 5 after its left alignment)
    for (unsigned i = 0; i < p.len2; i++) v.push_back((csum >> (p.logw * (p.len2 - 1 - i))) & (p.w - 1));
    return v;
}
Buf wots_sk(const P &p, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]) {
    Buf o(p.len * p.n); uint32_t a[8]; memcpy(a, ots, 32); a[6] = a[7] = 0;
    for (unsigned i = 0; i < p.len; i++) { a[5] = i; prf_keygen(p, &o[i * p.n], seed, a, skseed); }
    return o;
}
Buf wots_pk(const P &p, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]) {
    if (p.mock) { Buf o(p.len * p.n); mm_wots_pk(o.data(), p.n, p.len, skseed, seed, ots); return o; }
    Buf o = wots_sk(p, skseed, seed, ots);
    for (unsigned i = 0; i < p.len; i++) chain(p, &o[i * p.n], &o[i * p.n], 0, p.w - 1, seed, ots, i);
    return o;
}
Buf wots_sig(const P &p, const uint8_t *dg, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]) {
    if (p.mock) { Buf o = wots_pk(p, skseed, seed, ots); mm_wots_pad(o.data(), p.n, p.len, dg, seed, ots); return o; }
    Buf o = wots_sk(p, skseed, seed, ots); auto ds = digits(p, dg);
    for (unsigned i = 0; i < p.len; i++) chain(p, &o[i * p.n], &o[i * p.n], 0, ds[i], seed, ots, i);
    return o;
}
Buf wots_pk_from_sig(const P &p, const uint8_t *sig, const uint8_t *dg, const uint8_t *seed, const uint32_t ots[8]) {
    Buf o(sig, sig + p.len * p.n);
    if (p.mock) { mm_wots_pad(o.data(), p.n, p.len, dg, seed, ots); return o; }
    auto ds = digits(p, dg);
    for (unsigned i = 0; i < p.len; i++) chain(p, &o[i * p.n], &o[i * p.n], ds[i], p.w - 1 - ds[i], seed, ots, i);
    return o;
}
Buf ltree(const P &p, Buf pk, const uint8_t *seed, uint32_t layer, uint64_t tree, uint32_t leaf) {
    uint32_t a[8]; ots_addr(a, layer, tree, leaf); a[3] = 1;
    unsigned l = p.len;
    for (a[5] = 0; l > 1; a[5]++) {
        for (unsigned i = 0; i < l / 2; i++) { a[6] = i; H(p, &pk[i * p.n], &pk[2 * i * p.n], &pk[(2 * i + 1) * p.n], seed, a); }
        if (l % 2) memmove(&pk[(l / 2) * p.n], &pk[(l - 1) * p.n], p.n);
        l = (l + 1) / 2;
    }
    return Buf(pk.begin(), pk.begin() + p.n);
}

// ------------------------------------------------------------------ keys
Key::Key(const P &p_, const Buf &a, const Buf &b, const Buf &c) : p(p_), skseed(a), skprf(b), seed(c), trees(p_.d) {}
Buf Key::leaf(unsigned layer, uint64_t t, uint32_t i) {
    uint32_t a[8]; ots_addr(a, layer, t, i);
    return ltree(p, wots_pk(p, skseed.data(), seed.data(), a), seed.data(), layer, t, i);
}
Key::Tree &Key::tree(unsigned layer, uint64_t id) {
    auto &m = trees[layer];
    auto it = m.find(id);
    if (it != m.end()) return it->second;
    if (m.size() >= 2) {      // keep the two most recent trees of a layer
        auto lo = m.begin();
        m.erase(lo->first < id ? lo : std::prev(m.end()));
    }
    Tree &t = m[id]; t.id = id;
    size_t leaves = (size_t)1 << p.th;
    t.nodes.resize(2 * leaves * p.n);          // heap order: node 1 = root
    for (size_t i = 0; i < leaves; i++) { Buf l = leaf(layer, id, (uint32_t)i); memcpy(&t.nodes[(leaves + i) * p.n], l.data(), p.n); }
    uint32_t a[8] = {}; a[0] = layer; a[1] = (uint32_t)(id >> 32); a[2] = (uint32_t)id; a[3] = 2;
    for (unsigned hh = 1; hh <= p.th; hh++) {
        size_t cnt = leaves >> hh; a[5] = hh - 1;
        for (size_t i = 0; i < cnt; i++) { a[6] = (uint32_t)i; H(p, &t.nodes[(cnt + i) * p.n], &t.nodes[2 * (cnt + i) * p.n], &t.nodes[(2 * (cnt + i) + 1) * p.n], seed.data(), a); }
    }
    return t;
}
const uint8_t *Key::node(unsigned layer, uint64_t id, unsigned height, uint64_t i) {
    return &tree(layer, id).nodes[(((size_t)1 << (p.th - height)) + i) * p.n];
}
const Buf &Key::compute_root() {
    if (root.empty()) { const uint8_t *r = node(p.d - 1, 0, p.th, 0); root.assign(r, r + p.n); }
    return root;
}
Buf Key::digest(uint64_t idx, const uint8_t *m, size_t mlen, Buf *Rout) {
    uint8_t ib[32], R[64]; Buf dg(p.n);
    to_bytes(ib, 32, idx); prf(p, R, ib, skprf.data());
    hmsg(p, dg.data(), R, compute_root().data(), idx, m, mlen);
    if (Rout) Rout->assign(R, R + p.n);
    return dg;
}
Buf Key::prefix(uint64_t idx, const uint8_t *m, size_t mlen) {
    Buf R, dg = digest(idx, m, mlen, &R), out(p.idxb);
    to_bytes(out.data(), p.idxb, idx);
    out.insert(out.end(), R.begin(), R.end());
    uint32_t a[8]; ots_addr(a, 0, idx >> p.th, (uint32_t)(idx & ((1ULL << p.th) - 1)));
    Buf s = wots_sig(p, dg.data(), skseed.data(), seed.data(), a);
    out.insert(out.end(), s.begin(), s.end());
    return out;
}
Buf Key::sign(uint64_t idx, const uint8_t *m, size_t mlen) {
    Buf out = prefix(idx, m, mlen);
    uint64_t t = idx;
    for (unsigned layer = 0; layer < p.d; layer++) {
        uint32_t leafi = (uint32_t)(t & ((1ULL << p.th) - 1)); t >>= p.th;
        if (layer) {
            // the layer's WOTS signature signs the root of the tree below; cached per child tree
            uint64_t child = (t << p.th) | leafi;
            Tree &c = tree(layer - 1, child);
            if (c.sig_id != child) {
                uint32_t a[8]; ots_addr(a, layer, t, leafi);
                c.sig = wots_sig(p, &c.nodes[p.n], skseed.data(), seed.data(), a); c.sig_id = child;
            }
            out.insert(out.end(), c.sig.begin(), c.sig.end());
        }
        for (unsigned j = 0; j < p.th; j++) {
            const uint8_t *x = node(layer, t, j, (leafi >> j) ^ 1);
            out.insert(out.end(), x, x + p.n);
        }
    }
    return out;
}
Buf root_from_sig(const P &p, const uint8_t *sig, const uint8_t *pkroot, const uint8_t *pkseed, const uint8_t *m, size_t mlen) {
    uint64_t idx = to_int(sig, p.idxb);
    Buf cur(p.n);
    hmsg(p, cur.data(), sig + p.idxb, pkroot, idx, m, mlen);
    sig += p.idxb + p.n;
    uint64_t t = idx;
    for (unsigned layer = 0; layer < p.d; layer++) {
        uint32_t leafi = (uint32_t)(t & ((1ULL << p.th) - 1)); t >>= p.th;
        uint32_t a[8]; ots_addr(a, layer, t, leafi);
        cur = ltree(p, wots_pk_from_sig(p, sig, cur.data(), pkseed, a), pkseed, layer, t, leafi);
        sig += p.len * p.n;
        a[3] = 2; a[4] = 0;
        for (unsigned j = 0; j < p.th; j++) {
            a[5] = j; a[6] = leafi >> (j + 1);
            Buf nx(p.n);
            if ((leafi >> j) & 1) H(p, nx.data(), sig, cur.data(), pkseed, a); else H(p, nx.data(), cur.data(), sig, pkseed, a);
            cur = nx; sig += p.n;
        }
    }
    return cur;
}

bool selftest(std::string &why) {
    for (size_t len = 0; len < 420; len++) {
        Buf in(len); for (size_t i = 0; i < len; i++) in[i] = (uint8_t)(i * 7 + len);
        for (int f = 0; f < 2; f++) {
            uint8_t a[300], b[300]; size_t ol = 1 + len % 299;
            shake(f ? 136 : 168, a, ol, in.data(), len);
            EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, f ? EVP_shake256() : EVP_shake128(), nullptr);
            EVP_DigestUpdate(c, in.data(), len); EVP_DigestFinalXOF(c, b, ol); EVP_MD_CTX_free(c);
            if (memcmp(a, b, ol)) { why = "model's Keccak differs from OpenSSL"; return false; }
        }
    }
    return true;
}
} // namespace ref
